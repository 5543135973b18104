//! Shrinks a violating plan while it still violates in the same way.

use crate::exec::run;
use crate::judge::{judge, texts_of, Base, Verdict};
use crate::plan::Plan;
use crate::raw;

struct Min<'a> {
    base: &'a mut Base,
    class: String,
    left: u32,
    until: u64,
    best: Plan,
}

impl<'a> Min<'a> {
    fn try_it(&mut self, p: Plan) -> bool {
        if self.left == 0 || raw::real_now() > self.until || p == self.best {
            return false;
        }
        self.left -= 1;
        let out = run(&p);
        if let Verdict::Bad { class, .. } = judge(&p, &out, self.base) {
            if class == self.class {
                self.best = p;
                return true;
            }
        }
        false
    }
    fn spent(&self) -> bool {
        self.left == 0 || raw::real_now() > self.until
    }
}

/// Drops texts that nothing refers to.
fn tidy(p: &Plan) -> Plan {
    let mut q = p.clone();
    q.texts.clear();
    for i in 0..q.shared.len() {
        q.shared[i] = q.text(&p.texts[p.shared[i]]) as usize;
    }
    let mut threads = std::mem::take(&mut q.threads);
    for t in &mut threads {
        for o in t {
            texts_of(o, &mut |i| q.text(&p.texts[i as usize]));
        }
    }
    q.threads = threads;
    let mut nested = std::mem::take(&mut q.nested);
    for o in &mut nested {
        texts_of(o, &mut |i| q.text(&p.texts[i as usize]));
    }
    q.nested = nested;
    q
}

/// Removes ever smaller pieces of a list.
fn chunks(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = n;
    while k > 0 {
        let mut a = 0;
        while a < n {
            v.push((a, (a + k).min(n)));
            a += k;
        }
        k /= 2;
    }
    v
}

pub fn minimize(p: &Plan, class: &str, base: &mut Base) -> Plan {
    let mut m = Min {
        base,
        class: class.into(),
        left: 1500,
        until: raw::real_now() + 40_000_000_000,
        best: p.clone(),
    };
    loop {
        let before = m.best.clone();
        // threads, from the last
        let mut i = m.best.threads.len();
        while i > 0 && m.best.threads.len() > 1 {
            i -= 1;
            let mut q = m.best.clone();
            q.threads.remove(i);
            q.stalls.retain(|s| s.0 != i);
            q.pauses.retain(|s| s.0 != i);
            for s in &mut q.stalls {
                if s.0 > i {
                    s.0 -= 1;
                }
            }
            for s in &mut q.pauses {
                if s.0 > i {
                    s.0 -= 1;
                }
            }
            m.try_it(q);
        }
        // operations
        for t in 0..m.best.threads.len() {
            let n = m.best.threads[t].len();
            let mut done = false;
            for (a, b) in chunks(n).into_iter().filter(|c| c.1 - c.0 > 1) {
                let mut q = m.best.clone();
                if b <= q.threads[t].len() && (b - a) < q.threads[t].len() {
                    q.threads[t].drain(a..b);
                    done |= m.try_it(q);
                }
                if done {
                    break;
                }
            }
            let mut i = m.best.threads[t].len();
            while i > 0 && m.best.threads[t].len() > 1 {
                i -= 1;
                let mut q = m.best.clone();
                q.threads[t].remove(i);
                m.try_it(q);
            }
        }
        // schedule
        for (a, b) in chunks(m.best.sched.len()) {
            if b <= m.best.sched.len() {
                let mut q = m.best.clone();
                q.sched.drain(a..b);
                m.try_it(q);
            }
            if m.spent() {
                break;
            }
        }
        for i in (0..m.best.stalls.len()).rev() {
            let mut q = m.best.clone();
            q.stalls.remove(i);
            m.try_it(q);
        }
        for i in (0..m.best.pauses.len()).rev() {
            let mut q = m.best.clone();
            q.pauses.remove(i);
            m.try_it(q);
        }
        for i in (0..m.best.io.len()).rev() {
            let mut q = m.best.clone();
            q.io.remove(i);
            m.try_it(q);
        }
        if m.best.env > 0 {
            let mut q = m.best.clone();
            q.env = 0;
            m.try_it(q);
        }
        if m.best.iomax > 0 {
            let mut q = m.best.clone();
            q.iomax = 0;
            m.try_it(q);
        }
        if m.best.fine > 0 {
            let mut q = m.best.clone();
            q.fine = 0;
            m.try_it(q);
        }
        // faults and details of operations
        for t in 0..m.best.threads.len() {
            for i in 0..m.best.threads[t].len() {
                macro_rules! edit {
                    ($q:ident, $e:expr) => {{
                        let mut q = m.best.clone();
                        {
                            let $q = &mut q.threads[t][i];
                            $e;
                        }
                        m.try_it(q);
                    }};
                }
                edit!(o, o.oom = 0);
                edit!(o, o.oom %= crate::alloc::FROM_THEN_ON);
                edit!(o, o.max = 0);
                let mut k = m.best.threads[t][i].rep;
                while k > 1 {
                    k /= 2;
                    edit!(o, o.rep = k);
                    if m.best.threads[t][i].rep > k {
                        break;
                    }
                }
                for f in (0..m.best.threads[t][i].faults.len()).rev() {
                    edit!(o, {
                        o.faults.remove(f);
                    });
                }
                if m.best.threads[t][i].k == crate::plan::K::Report {
                    for f in (0..m.best.threads[t][i].sub.len()).rev() {
                        if m.best.threads[t][i].sub.len() > 1 {
                            edit!(o, {
                                o.sub.remove(f);
                                o.faults.retain(|x| x.which != f as u8);
                                for x in &mut o.faults {
                                    if x.which > f as u8 {
                                        x.which -= 1;
                                    }
                                }
                            });
                        }
                    }
                }
            }
        }
        let q = tidy(&m.best);
        m.try_it(q);
        // texts, when small enough to be worth it
        for i in 0..m.best.texts.len() {
            let n = m.best.texts[i].len();
            if n > 4000 {
                continue;
            }
            for (a, b) in chunks(n) {
                if b > m.best.texts[i].len() || m.spent() {
                    continue;
                }
                let mut q = m.best.clone();
                q.texts[i].drain(a..b);
                let utf8 = |t: &[u8]| std::str::from_utf8(t).is_ok();
                if utf8(&q.texts[i]) || !utf8(&m.best.texts[i]) {
                    m.try_it(q);
                }
            }
        }
        if m.best == before || m.spent() {
            return m.best;
        }
    }
}
