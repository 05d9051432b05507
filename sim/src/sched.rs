//! Seeded scheduler for OS threads: one thread runs at a time, at every hook
//! point the choice sequence decides who goes on.

use crate::choice::Choices;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

struct St {
    current: usize,
    alive: Vec<bool>,
    c: Choices,
    /// Points until the next preemption, 0 for never
    left: usize,
    max_run: usize,
    log: Vec<(usize, usize)>,
    ran: usize,
}

struct Shared {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}

thread_local! {
    static ME: Cell<(*const Shared, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn preempt(st: &mut St, me: usize) -> Option<usize> {
    let others: Vec<usize> = (0..st.alive.len()).filter(|i| *i != me && st.alive[*i]).collect();
    if others.is_empty() {
        return None;
    }
    Some(others[st.c.below(others.len())])
}

pub fn yield_point() {
    let Ok((sh, me)) = ME.try_with(|m| m.get()) else { return };
    if sh.is_null() || INSIDE.with(|i| i.replace(true)) {
        return;
    }
    // Safety: the pointer is set by `run` for the life of the scope
    let sh = unsafe { &*sh };
    let mut st = sh.m.lock().unwrap();
    st.ran += 1;
    if st.left > 0 {
        st.left -= 1;
        if st.left == 0 {
            if let Some(n) = preempt(&mut st, me) {
                let ran = std::mem::take(&mut st.ran);
                st.log.push((me, ran));
                let m = st.max_run;
                st.left = st.c.below(m);
                st.current = n;
                sh.cv[n].notify_one();
                while st.current != me {
                    st = sh.cv[me].wait(st).unwrap();
                }
            }
        }
    }
    drop(st);
    INSIDE.with(|i| i.set(false));
}

/// Run the bodies under the scheduler, returns the choices and who ran how
/// many points in turn
pub fn run<'s>(c: Choices, max_run: usize, bodies: Vec<Box<dyn FnOnce() + Send + 's>>) -> (Choices, Vec<(usize, usize)>) {
    let n = bodies.len();
    let mut c = c;
    let first = c.below(n);
    let left = c.below(max_run);
    let sh = Shared {
        m: Mutex::new(St { current: first, alive: vec![true; n], c, left, max_run, log: Vec::new(), ran: 0 }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    };
    std::thread::scope(|s| {
        for (i, b) in bodies.into_iter().enumerate() {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    {
                        let mut st = sh.m.lock().unwrap();
                        while st.current != i {
                            st = sh.cv[i].wait(st).unwrap();
                        }
                    }
                    ME.with(|m| m.set((sh, i)));
                    b();
                    ME.with(|m| m.set((std::ptr::null(), 0)));
                    let mut st = sh.m.lock().unwrap();
                    st.alive[i] = false;
                    let ran = std::mem::take(&mut st.ran);
                    st.log.push((i, ran));
                    if let Some(n) = preempt(&mut st, i) {
                        let m = st.max_run;
                        st.left = st.c.below(m);
                        st.current = n;
                        sh.cv[n].notify_one();
                    }
                })
                .unwrap();
        }
    });
    let st = sh.m.into_inner().unwrap();
    (st.c, st.log)
}
