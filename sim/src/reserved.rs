//! The reserved words of the documented dialects at the pinned commit, and
//! the other words that have a meaning somewhere.

pub const RESERVED: &[&str] = &[
    "ACCESSIBLE", "ADD", "ALL", "ALTER", "ANALYZE", "AND", "AS", "ASC", "ASENSITIVE", "BEFORE", "BETWEEN", "BIGINT", "BINARY", "BLOB", "BOTH", "BY",
    "CALL", "CASCADE", "CASE", "CHANGE", "CHAR", "CHARACTER", "CHECK", "COLLATE", "COLUMN", "COMMENT", "CONDITION", "CONSTRAINT", "CONTINUE",
    "CONVERT", "CREATE", "CROSS", "CURRENT_DATE", "CURRENT_ROLE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "CURRENT_USER", "CURSOR", "DATABASE",
    "DATABASES", "DAY_HOUR", "DAY_MICROSECOND", "DAY_MINUTE", "DAY_SECOND", "DEC", "DECIMAL", "DECLARE", "DEFAULT", "DELAYED", "DELETE",
    "DELETE_DOMAIN_ID", "DESC", "DESCRIBE", "DETERMINISTIC", "DISTINCT", "DISTINCTROW", "DIV", "DOUBLE", "DO_DOMAIN_IDS", "DROP", "DUAL", "EACH",
    "ELSE", "ELSEIF", "ENCLOSED", "END", "ESCAPED", "EXCEPT", "EXISTS", "EXIT", "EXPLAIN", "FALSE", "FETCH", "FLOAT", "FLOAT4", "FLOAT8", "FOR",
    "FORCE", "FOREIGN", "FROM", "FULLTEXT", "GENERAL", "GRANT", "GROUP", "HAVING", "HIGH_PRIORITY", "HOUR_MICROSECOND", "HOUR_MINUTE", "HOUR_SECOND",
    "IF", "IGNORE", "IGNORE_DOMAIN_IDS", "IGNORE_SERVER_IDS", "IN", "INDEX", "INFILE", "INNER", "INOUT", "INSENSITIVE", "INSERT", "INT", "INT1",
    "INT2", "INT3", "INT4", "INT8", "INTEGER", "INTERSECTA", "INTERVAL", "INTO", "IS", "ITERATE", "JOIN", "KEY", "KEYS", "KILL", "LEADING", "LEAVE",
    "LEFT", "LIKE", "LIMIT", "LINEAR", "LINES", "LOAD", "LOCALTIME", "LOCALTIMESTAMP", "LOCK", "LONG", "LONGBLOB", "LONGTEXT", "LOOP", "LOW_PRIORITY",
    "MASTER_HEARTBEAT_PERIOD", "MASTER_SSL_VERIFY_SERVER_CERT", "MATCH", "MAXVALUE", "MEDIUMBLOB", "MEDIUMINT", "MEDIUMTEXT", "MIDDLEINT",
    "MINUTE_MICROSECOND", "MINUTE_SECOND", "MOD", "MODIFIES", "NATURAL", "NOT", "NO_WRITE_TO_BINLOG", "NULL", "NUMERIC", "OFFSET", "ON", "OPTIMIZE",
    "OPTION", "OPTIONALLY", "OR", "ORDER", "OUT", "OUTER", "OUTFILE", "OVER", "PAGE_CHECKSUM", "PARSE_VCOL_EXPR", "PARTITION", "POSITION",
    "PRECISION", "PRIMARY", "PROCEDURE", "PURGE", "RANGE", "READ", "READS", "READ_WRITE", "REAL", "RECURSIVE", "REFERENCES", "REF_SYSTEM_ID",
    "REGEXP", "RENAME", "REPEAT", "REPLACE", "REQUIRE", "RESIGNAL", "RESTRICT", "RETURN", "RETURNING", "REVOKE", "RIGHT", "RLIKE", "ROWS", "SCHEMA",
    "SCHEMAS", "SECOND_MICROSECOND", "SELECT", "SENSITIVE", "SEPARATOR", "SET", "SHOW", "SIGNAL", "SLOW", "SMALLINT", "SPATIAL", "SPECIFIC", "SQL",
    "SQLEXCEPTION", "SQLSTATE", "SQLWARNING", "SQL_BIG_RESULT", "SQL_CALC_FOUND_ROWS", "SQL_SMALL_RESULT", "SSL", "STARTING", "STATS_AUTO_RECALC",
    "STATS_PERSISTENT", "STATS_SAMPLE_PAGES", "STRAIGHT_JOIN", "TABLE", "TERMINATED", "THEN", "TINYBLOB", "TINYINT", "TINYTEXT", "TO", "TRAILING",
    "TRIGGER", "TRUE", "UNDO", "UNION", "UNIQUE", "UNLOCK", "UNSIGNED", "UPDATE", "USAGE", "USE", "USING", "UTC_DATE", "UTC_TIME", "UTC_TIMESTAMP",
    "VALUES", "VARBINARY", "VARCHAR", "VARCHARACTER", "VARYING", "WHEN", "WHERE", "WHILE", "WINDOW", "WITH", "WRITE", "XOR", "YEAR_MONTH", "ZEROFILL",
];

pub const FREE: &[&str] = &[
    "ABS", "ACCOUNT", "ACOS", "ACTION", "ADDDATE", "ADDTIME", "ADD_MONTHS", "ADMIN", "AFTER", "AGAINST", "AGGREGATE", "ALGORITHM", "ALWAYS", "ANY",
    "ASCII", "ASIN", "AT", "ATAN", "ATAN2", "ATOMIC", "AUTHORS", "AUTO", "AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG", "AVG_ROW_LENGTH", "BACKUP",
    "BEGIN", "BIN", "BINLOG", "BIT", "BIT_LENGTH", "BLOCK", "BODY", "BOOL", "BOOLEAN", "BPCHAR_PATTERN_OPS", "BTREE", "BYTE", "BYTEA", "CACHE",
    "CASCADED", "CAST", "CATALOG_NAME", "CEIL", "CEILING", "CHAIN", "CHANGED", "CHARACTER_LENGTH", "CHARSET", "CHAR_LENGTH", "CHECKPOINT", "CHECKSUM",
    "CHR", "CIPHER", "CLASS_ORIGIN", "CLIENT", "CLOB", "CLOSE", "COALESCE", "CODE", "COLLATION", "COLUMNS", "COLUMN_ADD", "COLUMN_CHECK",
    "COLUMN_CREATE", "COLUMN_DELETE", "COLUMN_GET", "COLUMN_NAME", "COMMIT", "COMMITTED", "COMPACT", "COMPLETION", "COMPRESSED", "CONCAT",
    "CONCAT_WS", "CONCURRENT", "CONFLICT", "CONNECTION", "CONSISTENT", "CONSTRAINT_CATALOG", "CONSTRAINT_NAME", "CONSTRAINT_SCHEMA", "CONTAINS",
    "CONTEXT", "CONTRIBUTORS", "CONV", "CONVERT_TZ", "COPY", "COS", "COT", "COUNT", "CPU", "CRC32", "CRC32C", "CUBE", "CURDATE", "CURRENT",
    "CURRENT_POS", "CURSOR_NAME", "CURTIME", "CYCLE", "DATA", "DATAFILE", "DATE", "DATEDIFF", "DATETIME", "DATE_ADD", "DATE_FORMAT", "DATE_SUB",
    "DAY", "DAYNAME", "DAYOFMONTH", "DAYOFWEEK", "DAYOFYEAR", "DEALLOCATE", "DEFINER", "DEGREES", "DELAY_KEY_WRITE", "DELIMITER", "DES_KEY_FILE",
    "DIAGNOSTICS", "DIRECTORY", "DISABLE", "DISCARD", "DISK", "DO", "DUMPFILE", "DUPLICATE", "DYNAMIC", "ELSIF", "ELT", "EMPTY", "ENABLE", "ENDS",
    "ENGINE", "ENGINES", "ENUM", "ERROR", "ERRORS", "ESCAPE", "EVENT", "EVENTS", "EVERY", "EXAMINED", "EXCEPTION", "EXCHANGE", "EXCLUDE", "EXECUTE",
    "EXP", "EXPANSION", "EXPIRE", "EXPORT", "EXPORT_SET", "EXTENDED", "EXTENT_SIZE", "EXTRACT", "EXTRACTVALUE", "FAST", "FAULTS", "FEDERATED",
    "FIELD", "FIELDS", "FILE", "FIND_IN_SET", "FIRST", "FIXED", "FLOOR", "FLUSH", "FOLLOWING", "FOLLOWS", "FORMAT", "FOUND", "FROM_BASE64",
    "FROM_DAYS", "FROM_UNIXTIME", "FULL", "FUNCTION", "GENERATED", "GET", "GET_FORMAT", "GIST", "GLOBAL", "GOTO", "GRANTS", "GREATEST",
    "GROUP_CONCAT", "HANDLER", "HARD", "HASH", "HELP", "HEX", "HISTORY", "HOST", "HOSTS", "HOUR", "ID", "IDENTIFIED", "IDENTITY", "IFNULL", "IGNORED",
    "IMMEDIATE", "IMPORT", "INCREMENT", "INDEXES", "INET4", "INET6", "INITIAL_SIZE", "INSERT_METHOD", "INSTALL", "INSTR", "INT2_OPS", "INT4_OPS",
    "INT8_OPS", "INTERSECT", "INVISIBLE", "INVOKER", "IO", "IO_THREAD", "IPC", "ISOLATION", "ISOPEN", "ISSUER", "JSON", "JSON_ARRAY", "JSON_ARRAYAGG",
    "JSON_ARRAY_APPEND", "JSON_ARRAY_INSERT", "JSON_ARRAY_INTERSECT", "JSON_COMPACT", "JSON_CONTAINS", "JSON_CONTAINS_PATH", "JSON_DEPTH",
    "JSON_DETAILED", "JSON_EQUALS", "JSON_EXISTS", "JSON_EXTRACT", "JSON_INSERT", "JSON_KEYS", "JSON_LENGTH", "JSON_LOOSE", "JSON_MERGE",
    "JSON_MERGE_PATCH", "JSON_MERGE_PRESERVE", "JSON_NORMALIZE", "JSON_OBJECT", "JSON_OBJECTAGG", "JSON_OBJECT_FILTER_KEYS", "JSON_OBJECT_TO_ARRAY",
    "JSON_OVERLAPS", "JSON_PRETTY", "JSON_QUERY", "JSON_QUOTE", "JSON_REMOVE", "JSON_REPLACE", "JSON_SCHEMA_VALID", "JSON_SEARCH", "JSON_SET",
    "JSON_TABLE", "JSON_TYPE", "JSON_UNQUOTE", "JSON_VALID", "JSON_VALUE", "KEY_BLOCK_SIZE", "LAG", "LANGUAGE", "LAST", "LASTVAL", "LAST_DAY",
    "LAST_VALUE", "LCASE", "LEAD", "LEAST", "LEAVES", "LENGTH", "LENGTHB", "LESS", "LEVEL", "LIST", "LN", "LOAD_FILE", "LOCAL", "LOCATE", "LOCKED",
    "LOCKS", "LOG", "LOG10", "LOG2", "LOGFILE", "LOGS", "LOWER", "LPAD", "LTRIM", "MAKEDATE", "MAKETIME", "MAKE_SET", "MASTER",
    "MASTER_CONNECT_RETRY", "MASTER_DELAY", "MASTER_GTID_POS", "MASTER_HOST", "MASTER_LOG_FILE", "MASTER_LOG_POS", "MASTER_PASSWORD", "MASTER_PORT",
    "MASTER_SERVER_ID", "MASTER_SSL", "MASTER_SSL_CA", "MASTER_SSL_CAPATH", "MASTER_SSL_CERT", "MASTER_SSL_CIPHER", "MASTER_SSL_CRL",
    "MASTER_SSL_CRLPATH", "MASTER_SSL_KEY", "MASTER_USER", "MASTER_USE_GTID", "MAX", "MAX_CONNECTIONS_PER_HOUR", "MAX_QUERIES_PER_HOUR", "MAX_ROWS",
    "MAX_SIZE", "MAX_STATEMENT_TIME", "MAX_UPDATES_PER_HOUR", "MAX_USER_CONNECTIONS", "MEDIUM", "MEMORY", "MERGE", "MESSAGE_TEXT", "MICROSECOND",
    "MID", "MIGRATE", "MIN", "MINUS", "MINUTE", "MINVALUE", "MIN_ROWS", "MODE", "MODIFY", "MONITOR", "MONTH", "MONTHNAME", "MUTEX", "MYSQL",
    "MYSQL_ERRNO", "NAME", "NAMES", "NATIONAL", "NATURAL_SORT_KEY", "NCHAR", "NESTED", "NEVER", "NEW", "NEXT", "NEXTVAL", "NO", "NOCACHE", "NOCYCLE",
    "NODEGROUP", "NOMAXVALUE", "NOMINVALUE", "NONE", "NOTFOUND", "NOTHING", "NOTICE", "NOW", "NOWAIT", "NO_WAIT", "NULLIF", "NUMBER", "NVARCHAR",
    "NVL", "NVL2", "OCT", "OCTET_LENGTH", "OF", "OLD_PASSWORD", "ONE", "ONLINE", "ONLY", "OPEN", "OPTIONS", "ORD", "ORDINALITY", "OTHERS", "OVERLAPS",
    "OWNER", "PACKAGE", "PACK_KEYS", "PAGE", "PARSER", "PARTIAL", "PARTITIONING", "PARTITIONS", "PASSWORD", "PATH", "PERIOD", "PERIOD_ADD",
    "PERIOD_DIFF", "PERSISTENT", "PHASE", "PI", "PLPGSQL", "PLUGIN", "PLUGINS", "PORT", "PORTION", "POW", "POWER", "PRECEDES", "PRECEDING", "PREPARE",
    "PRESERVE", "PREV", "PREVIOUS", "PRIVILEGES", "PROCESS", "PROCESSLIST", "PROFILE", "PROFILES", "PROXY", "QUARTER", "QUERY", "QUICK", "QUOTE",
    "RADIANS", "RAISE", "RAND", "RAW", "READ_ONLY", "REBUILD", "RECOVER", "REDOFILE", "REDO_BUFFER_SIZE", "REDUNDANT", "RELAY", "RELAYLOG",
    "RELAY_LOG_FILE", "RELAY_LOG_POS", "RELAY_THREAD", "RELEASE", "RELOAD", "REMOVE", "REORGANIZE", "REPAIR", "REPEATABLE", "REPLAY", "REPLICA",
    "REPLICAS", "REPLICATION", "REPLICA_POS", "RESET", "RESTART", "RESTORE", "RESUME", "RETURNED_SQLSTATE", "RETURNS", "REUSE", "REVERSE", "ROLE",
    "ROLLBACK", "ROLLUP", "ROUND", "ROUTINE", "ROW", "ROWCOUNT", "ROWNUM", "ROWTYPE", "ROW_COUNT", "ROW_FORMAT", "RPAD", "RTREE", "RTRIM",
    "SAVEPOINT", "SCHEDULE", "SCHEMA_NAME", "SECOND", "SECURITY", "SEC_TO_TIME", "SEQUENCE", "SERIAL", "SERIALIZABLE", "SERVER", "SESSION", "SETVAL",
    "SFORMAT", "SHARE", "SHUTDOWN", "SIGN", "SIGNED", "SIMPLE", "SIN", "SKIP", "SLAVE", "SLAVES", "SLAVE_POS", "SNAPSHOT", "SOCKET", "SOFT", "SOME",
    "SONAME", "SOUNDEX", "SOUNDS", "SOURCE", "SPACE", "SQL_BUFFER_RESULT", "SQL_CACHE", "SQL_NO_CACHE", "SQL_THREAD", "SQL_TSI_DAY", "SQL_TSI_HOUR",
    "SQL_TSI_MINUTE", "SQL_TSI_MONTH", "SQL_TSI_QUARTER", "SQL_TSI_SECOND", "SQL_TSI_WEEK", "SQL_TSI_YEAR", "SQRT", "STAGE", "START", "STARTS",
    "STARTS_WITH", "STATEMENT", "STATUS", "STDIN", "STOP", "STORAGE", "STORED", "STRCMP", "STRFTIME", "STRICT", "STRING", "STR_TO_DATE",
    "SUBCLASS_ORIGIN", "SUBDATE", "SUBJECT", "SUBPARTITION", "SUBPARTITIONS", "SUBSTR", "SUBSTRING", "SUBSTRING_INDEX", "SUBTIME", "SUM", "SUPER",
    "SUSPEND", "SWAPS", "SWITCHES", "SYSDATE", "SYSTEM", "SYSTEM_TIME", "TABLES", "TABLESPACE", "TABLE_CHECKSUM", "TABLE_NAME", "TAN", "TEMPORARY",
    "TEMPTABLE", "TEXT", "TEXT_PATTERN_OPS", "THAN", "THREADS", "TIES", "TIME", "TIMEDIFF", "TIMESTAMP", "TIMESTAMPADD", "TIMESTAMPDIFF",
    "TIMESTAMPTZ", "TIME_FORMAT", "TIME_TO_SEC", "TIME_ZONE", "TO_BASE64", "TO_CHAR", "TO_DAYS", "TO_SECONDS", "TRANSACTION", "TRANSACTIONAL",
    "TRIGGERS", "TRUNCATE", "TYPE", "TYPES", "UCASE", "UNBOUNDED", "UNCOMMITTED", "UNCOMPRESSED_LENGTH", "UNDEFINED", "UNDOFILE", "UNDO_BUFFER_SIZE",
    "UNHEX", "UNICODE", "UNINSTALL", "UNIX_TIMESTAMP", "UNKNOWN", "UNTIL", "UPDATEXML", "UPGRADE", "UPPER", "USER", "USER_RESOURCES", "USE_FRM",
    "VALUE", "VARCHAR2", "VARCHAR_PATTERN_OPS", "VARIABLES", "VERSIONING", "VIA", "VIEW", "VIRTUAL", "VISIBLE", "WAIT", "WARNINGS", "WEEK", "WEEKDAY",
    "WEEKOFYEAR", "WEIGHT_STRING", "WITHIN", "WITHOUT", "WORK", "WRAPPER", "X509", "XA", "XML", "YEAR", "YEARWEEK", "ZONE",
];
