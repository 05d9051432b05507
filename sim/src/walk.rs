//! Visits every node of a statement that can be asked for its position.

use sql_parse::*;
use std::fmt::Debug;

pub struct Walk<'f> {
    /// Called with the kind of node, its position and its printed form
    pub f: &'f mut dyn FnMut(&'static str, Option<Span>, &dyn Debug),
}

impl Walk<'_> {
    fn s<T: Spanned + Debug>(&mut self, k: &'static str, x: &T) {
        (self.f)(k, Some(x.span()), x);
    }
    fn o<T: OptSpanned + Debug>(&mut self, k: &'static str, x: &T) {
        (self.f)(k, x.opt_span(), x);
    }

    pub fn statement(&mut self, x: &Statement) {
        self.s("Statement", x);
        match x {
            Statement::CreateIndex(v) => {
                self.s("CreateIndex", v);
                for x in &v.index_options {
                    self.s("CreateIndexOption", x);
                }
                self.name(&v.table_name);
                self.options(&v.create_options);
                if let Some((_, e)) = &v.where_ {
                    self.expr(e);
                }
            }
            Statement::CreateTable(v) => {
                self.s("CreateTable", v);
                self.name(&v.identifier);
                self.options(&v.create_options);
                for x in &v.create_definitions {
                    self.s("CreateDefinition", x);
                    if let CreateDefinition::ColumnDefinition { data_type, .. } = x {
                        self.data_type(data_type);
                    }
                }
                for x in &v.options {
                    self.s("TableOption", x);
                }
            }
            Statement::CreateView(v) => {
                self.s("CreateView", v);
                self.name(&v.name);
                self.options(&v.create_options);
                self.statement(&v.select);
            }
            Statement::CreateTrigger(v) => {
                self.s("CreateTrigger", v);
                self.options(&v.create_options);
                self.s("TriggerTime", &v.trigger_time);
                self.s("TriggerEvent", &v.trigger_event);
                self.statement(&v.statement);
            }
            Statement::CreateFunction(v) => {
                self.s("CreateFunction", v);
                self.options(&v.create_options);
                for (d, n, t) in &v.params {
                    if let Some(d) = d {
                        self.s("FunctionParamDirection", d);
                    }
                    self.s("Identifier", n);
                    self.data_type(t);
                }
                self.data_type(&v.return_type);
                for x in &v.characteristics {
                    self.s("FunctionCharacteristic", x);
                }
                if let Some(x) = &v.return_ {
                    self.statement(x);
                }
            }
            Statement::Select(v) => self.select(v),
            Statement::Delete(v) => {
                self.s("Delete", v);
                for x in &v.flags {
                    self.s("DeleteFlag", x);
                }
                for x in &v.tables {
                    self.name(x);
                }
                for x in &v.using {
                    self.table(x);
                }
                if let Some((e, _)) = &v.where_ {
                    self.expr(e);
                }
                if let Some((_, e)) = &v.returning {
                    self.select_exprs(e);
                }
            }
            Statement::InsertReplace(v) => {
                self.s("InsertReplace", v);
                self.s("InsertReplaceType", &v.type_);
                for x in &v.flags {
                    self.s("InsertReplaceFlag", x);
                }
                self.name(&v.table);
                if let Some((_, l)) = &v.values {
                    for x in l.iter().flatten() {
                        self.expr(x);
                    }
                }
                if let Some(x) = &v.select {
                    self.select(x);
                }
                if let Some(x) = &v.set {
                    self.s("InsertReplaceSet", x);
                    for x in &x.pairs {
                        self.s("InsertReplaceSetPair", x);
                        self.expr(&x.value);
                    }
                }
                if let Some(x) = &v.on_duplicate_key_update {
                    self.s("InsertReplaceOnDuplicateKeyUpdate", x);
                    for x in &x.pairs {
                        self.s("InsertReplaceSetPair", x);
                        self.expr(&x.value);
                    }
                }
                if let Some(x) = &v.on_conflict {
                    self.s("OnConflict", x);
                    self.o("OnConflictTarget", &x.target);
                    self.s("OnConflictAction", &x.action);
                    if let OnConflictAction::DoUpdateSet { sets, where_, .. } = &x.action {
                        for (n, e) in sets {
                            self.s("Identifier", n);
                            self.expr(e);
                        }
                        if let Some((_, e)) = where_ {
                            self.expr(e);
                        }
                    }
                }
                if let Some((_, e)) = &v.returning {
                    self.select_exprs(e);
                }
            }
            Statement::Update(v) => {
                self.s("Update", v);
                for x in &v.flags {
                    self.s("UpdateFlag", x);
                }
                for x in &v.tables {
                    self.table(x);
                }
                for (_, e) in &v.set {
                    self.expr(e);
                }
                if let Some((e, _)) = &v.where_ {
                    self.expr(e);
                }
                if let Some((_, e)) = &v.returning {
                    self.select_exprs(e);
                }
            }
            Statement::DropIndex(v) => {
                self.s("DropIndex", v);
                if let Some((_, n)) = &v.on {
                    self.name(n);
                }
            }
            Statement::DropTable(v) => {
                self.s("DropTable", v);
                for x in &v.tables {
                    self.name(x);
                }
            }
            Statement::DropFunction(v) => {
                self.s("DropFunction", v);
                self.name(&v.function);
            }
            Statement::DropProcedure(v) => {
                self.s("DropProcedure", v);
                self.name(&v.procedure);
            }
            Statement::DropEvent(v) => {
                self.s("DropEvent", v);
                self.name(&v.event);
            }
            Statement::DropDatabase(v) => self.s("DropDatabase", v),
            Statement::DropServer(v) => self.s("DropServer", v),
            Statement::DropTrigger(v) => {
                self.s("DropTrigger", v);
                self.name(&v.identifier);
            }
            Statement::DropView(v) => {
                self.s("DropView", v);
                for x in &v.views {
                    self.name(x);
                }
            }
            Statement::Set(v) => {
                self.s("Set", v);
                for (_, e) in &v.values {
                    self.expr(e);
                }
            }
            Statement::Signal(v) => {
                self.s("Signal", v);
                self.expr(&v.sql_state);
                for (n, _, e) in &v.sets {
                    self.s("SignalConditionInformationName", n);
                    self.expr(e);
                }
            }
            Statement::AlterTable(v) => {
                self.s("AlterTable", v);
                self.name(&v.table);
                for x in &v.alter_specifications {
                    self.alter(x);
                }
            }
            Statement::Block(v) | Statement::Do(v) => {
                for x in v {
                    self.statement(x);
                }
            }
            Statement::If(v) => {
                self.s("If", v);
                for x in &v.conditions {
                    self.s("IfCondition", x);
                    self.expr(&x.search_condition);
                    for x in &x.then {
                        self.statement(x);
                    }
                }
                if let Some((_, l)) = &v.else_ {
                    for x in l {
                        self.statement(x);
                    }
                }
            }
            Statement::Union(v) => {
                self.s("Union", v);
                self.statement(&v.left);
                for x in &v.with {
                    self.s("UnionWith", x);
                    self.o("UnionType", &x.union_type);
                    self.statement(&x.union_statement);
                }
                if let Some((_, l)) = &v.order_by {
                    for (e, f) in l {
                        self.expr(e);
                        self.o("OrderFlag", f);
                    }
                }
                if let Some((_, a, b)) = &v.limit {
                    if let Some(a) = a {
                        self.expr(a);
                    }
                    self.expr(b);
                }
            }
            Statement::Case(v) => {
                self.s("CaseStatement", v);
                if let Some(e) = &v.value {
                    self.expr(e);
                }
                for x in &v.whens {
                    self.s("WhenStatement", x);
                    self.expr(&x.when);
                    for x in &x.then {
                        self.statement(x);
                    }
                }
                if let Some((_, l)) = &v.else_ {
                    for x in l {
                        self.statement(x);
                    }
                }
            }
            Statement::Copy(v) => self.s("Copy", v),
            Statement::CreateTypeEnum(v) => self.s("CreateTypeEnum", v),
            Statement::TruncateTable(v) => {
                self.s("TruncateTable", v);
                self.name(&v.table_name);
            }
            Statement::RenameTable(v) => {
                self.s("RenameTable", v);
                for x in &v.table_to_tables {
                    self.s("TableToTable", x);
                    self.name(&x.table);
                    self.name(&x.new_table);
                }
            }
            Statement::WithQuery(v) => {
                self.s("WithQuery", v);
                for x in &v.with_blocks {
                    self.s("WithBlock", x);
                    self.statement(&x.statement);
                }
                self.statement(&v.statement);
            }
            Statement::Return(v) => {
                self.s("Return", v);
                self.expr(&v.expr);
            }
            _ => (),
        }
    }

    fn alter(&mut self, x: &AlterSpecification) {
        self.s("AlterSpecification", x);
        match x {
            AlterSpecification::AddColumn { data_type, .. } => self.data_type(data_type),
            AlterSpecification::AddIndex { index_type, cols, index_options, .. } => {
                self.s("IndexType", index_type);
                for x in cols {
                    self.s("IndexCol", x);
                }
                for x in index_options {
                    self.s("IndexOption", x);
                }
            }
            AlterSpecification::AddForeignKey { cols, ons, .. } => {
                for x in cols {
                    self.s("IndexCol", x);
                }
                for x in ons {
                    self.s("ForeignKeyOn", x);
                    self.s("ForeignKeyOnType", &x.type_);
                    self.s("ForeignKeyOnAction", &x.action);
                }
            }
            AlterSpecification::Modify { definition, .. } => self.data_type(definition),
            AlterSpecification::AlterColumn { alter_column_action, .. } => {
                self.s("AlterColumnAction", alter_column_action);
                match alter_column_action {
                    AlterColumnAction::SetDefault { value, .. } => self.expr(value),
                    AlterColumnAction::Type { type_, .. } => self.data_type(type_),
                    _ => (),
                }
            }
            _ => (),
        }
    }

    fn options(&mut self, l: &[CreateOption]) {
        for x in l {
            self.s("CreateOption", x);
            if let CreateOption::Algorithm(_, a) = x {
                self.s("CreateAlgorithm", a);
            }
        }
    }

    fn name(&mut self, x: &QualifiedName) {
        self.s("QualifiedName", x);
    }

    fn data_type(&mut self, x: &DataType) {
        self.s("DataType", x);
        self.o("Type", &x.type_);
        for x in &x.properties {
            self.s("DataTypeProperty", x);
            match x {
                DataTypeProperty::Default(e) => self.expr(e),
                DataTypeProperty::As((_, e)) | DataTypeProperty::Check((_, e)) => self.expr(e),
                _ => (),
            }
        }
    }

    fn select_exprs(&mut self, l: &[SelectExpr]) {
        for x in l {
            self.s("SelectExpr", x);
            self.expr(&x.expr);
        }
    }

    fn select(&mut self, v: &Select) {
        self.s("Select", v);
        for x in &v.flags {
            self.s("SelectFlag", x);
        }
        self.select_exprs(&v.select_exprs);
        for x in v.table_references.iter().flatten() {
            self.table(x);
        }
        if let Some((e, _)) = &v.where_ {
            self.expr(e);
        }
        if let Some((_, l)) = &v.group_by {
            for x in l {
                self.expr(x);
            }
        }
        if let Some((e, _)) = &v.having {
            self.expr(e);
        }
        if let Some((_, l)) = &v.order_by {
            for (e, f) in l {
                self.expr(e);
                self.o("OrderFlag", f);
            }
        }
        if let Some((_, a, b)) = &v.limit {
            if let Some(a) = a {
                self.expr(a);
            }
            self.expr(b);
        }
        if let Some(x) = &v.locking {
            self.s("Locking", x);
            self.s("LockStrength", &x.strength);
            self.o("LockWait", &x.wait);
        }
    }

    fn table(&mut self, x: &TableReference) {
        self.s("TableReference", x);
        match x {
            TableReference::Table { identifier, index_hints, .. } => {
                self.name(identifier);
                for x in index_hints {
                    self.s("IndexHint", x);
                    self.s("IndexHintUse", &x.use_);
                    self.s("IndexHintType", &x.type_);
                    if let Some((_, f)) = &x.for_ {
                        self.s("IndexHintFor", f);
                    }
                }
            }
            TableReference::Query { query, .. } => self.statement(query),
            TableReference::Join { join, left, right, specification } => {
                self.s("JoinType", join);
                self.table(left);
                self.table(right);
                if let Some(x) = specification {
                    self.s("JoinSpecification", x);
                    if let JoinSpecification::On(e, _) = x {
                        self.expr(e);
                    }
                }
            }
        }
    }

    pub fn expr(&mut self, x: &Expression) {
        self.s("Expression", x);
        match x {
            Expression::Binary { lhs, rhs, .. } => {
                self.expr(lhs);
                self.expr(rhs);
            }
            Expression::Unary { operand, .. } => self.expr(operand),
            Expression::Subquery(s) | Expression::Exists(s) => self.statement(s),
            Expression::Function(_, l, _) => {
                for x in l {
                    self.expr(x);
                }
            }
            Expression::WindowFunction { args, window_spec, .. } => {
                for x in args {
                    self.expr(x);
                }
                self.s("WindowSpec", window_spec);
                for (e, f) in &window_spec.order_by.1 {
                    self.expr(e);
                    self.o("OrderFlag", f);
                }
            }
            Expression::Identifier(l) => {
                for x in l {
                    self.s("IdentifierPart", x);
                }
            }
            Expression::Extract { date, .. } => self.expr(date),
            Expression::In { lhs, rhs, .. } => {
                self.expr(lhs);
                for x in rhs {
                    self.expr(x);
                }
            }
            Expression::Is(e, _, _) => self.expr(e),
            Expression::Case { value, whens, else_, .. } => {
                if let Some(e) = value {
                    self.expr(e);
                }
                for x in whens {
                    self.s("When", x);
                    self.expr(&x.when);
                    self.expr(&x.then);
                }
                if let Some((_, e)) = else_ {
                    self.expr(e);
                }
            }
            Expression::Cast { expr, type_, .. } => {
                self.expr(expr);
                self.data_type(type_);
            }
            Expression::Count { expr, .. } | Expression::GroupConcat { expr, .. } => self.expr(expr),
            Expression::TimestampAdd { interval, datetime, .. } => {
                self.expr(interval);
                self.expr(datetime);
            }
            Expression::TimestampDiff { e1, e2, .. } => {
                self.expr(e1);
                self.expr(e2);
            }
            _ => (),
        }
    }
}
