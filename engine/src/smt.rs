//! SMT back end: a persistent z3 process for the stream of small queries, fresh portfolio runs for
//! the hard ones.
use crate::term::{Arena, FxMap, Op, T, NONE};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

struct Proc {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    emitted: Vec<bool>,
    nem: usize,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

pub struct Smt {
    p: Option<Proc>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub cache_hits: u64,
    pub secs: f64,
    pub max_q: f64,
    cache: FxMap<u64, Vec<(Vec<T>, Option<Vec<(u32, u64)>>)>>,
    pub quick_ms: u32,
    pub hard_s: u32,
    pub deadline: Option<Instant>,
    pub z3: String,
    pub z3new: String,
    pub cvc5: String,
    pub dump: Option<String>,
}

pub fn emit_node(ar: &Arena, t: T, out: &mut String) {
    let n = ar.n(t);
    let r = |x: T| -> String { name(ar, x) };
    let w = n.w;
    // bv view of a possibly boolean term
    let bv = |x: T| -> String {
        if ar.w(x) == 1 {
            format!("(ite {} #b1 #b0)", name(ar, x))
        } else {
            name(ar, x)
        }
    };
    let body = match n.op {
        Op::Const | Op::Var => return,
        Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
            let o = match n.op {
                Op::Add => "bvadd",
                Op::Sub => "bvsub",
                Op::Mul => "bvmul",
                Op::UDiv => "bvudiv",
                Op::URem => "bvurem",
                Op::SDiv => "bvsdiv",
                Op::SRem => "bvsrem",
                Op::Shl => "bvshl",
                Op::LShr => "bvlshr",
                _ => "bvashr",
            };
            if w == 1 {
                format!("(= ({} {} {}) #b1)", o, bv(n.a), bv(n.b))
            } else {
                format!("({} {} {})", o, r(n.a), r(n.b))
            }
        }
        Op::And => format!("({} {} {})", if w == 1 { "and" } else { "bvand" }, r(n.a), r(n.b)),
        Op::Or => format!("({} {} {})", if w == 1 { "or" } else { "bvor" }, r(n.a), r(n.b)),
        Op::Xor => format!("({} {} {})", if w == 1 { "xor" } else { "bvxor" }, r(n.a), r(n.b)),
        Op::Not => format!("({} {})", if w == 1 { "not" } else { "bvnot" }, r(n.a)),
        Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
        Op::Extract => {
            let hi = n.k as u32 + w - 1;
            if w == 1 {
                format!("(= ((_ extract {} {}) {}) #b1)", hi, n.k, bv(n.a))
            } else {
                format!("((_ extract {} {}) {})", hi, n.k, bv(n.a))
            }
        }
        Op::ZExt => format!("((_ zero_extend {}) {})", w - ar.w(n.a), bv(n.a)),
        Op::SExt => format!("((_ sign_extend {}) {})", w - ar.w(n.a), bv(n.a)),
        Op::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
        Op::Eq => format!("(= {} {})", r(n.a), r(n.b)),
        Op::Ult => format!("(bvult {} {})", bv(n.a), bv(n.b)),
        Op::Slt => format!("(bvslt {} {})", bv(n.a), bv(n.b)),
    };
    if w == 1 {
        let _ = writeln!(out, "(define-fun n{} () Bool {})", t, body);
    } else {
        let _ = writeln!(out, "(define-fun n{} () (_ BitVec {}) {})", t, w, body);
    }
}
pub fn name(ar: &Arena, t: T) -> String {
    let n = ar.n(t);
    match n.op {
        Op::Const => {
            if n.w == 1 {
                if n.k == 1 {
                    "true".into()
                } else {
                    "false".into()
                }
            } else {
                format!("(_ bv{} {})", n.k, n.w)
            }
        }
        _ => format!("n{}", t),
    }
}
/// Definitions for the cone of `roots` not yet emitted.
fn emit_cone(ar: &Arena, roots: &[T], emitted: &mut Vec<bool>, nem: &mut usize, out: &mut String) {
    if emitted.len() < ar.nodes.len() {
        emitted.resize(ar.nodes.len() + 4096, false);
    }
    let mut st: Vec<(T, bool)> = roots.iter().map(|&t| (t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if emitted[t as usize] {
            continue;
        }
        let n = ar.n(t);
        if n.op == Op::Const {
            continue;
        }
        if n.op == Op::Var {
            if ar.opaque.contains(&t) {
                panic!("floating point value in a bit-vector formula");
            }
            if n.w == 1 {
                let _ = writeln!(out, "(declare-const n{} Bool)", t);
            } else {
                let _ = writeln!(out, "(declare-const n{} (_ BitVec {}))", t, n.w);
            }
            emitted[t as usize] = true;
            *nem += 1;
            continue;
        }
        if done {
            emit_node(ar, t, out);
            emitted[t as usize] = true;
            *nem += 1;
        } else {
            st.push((t, true));
            for x in [n.a, n.b, n.c] {
                if x != NONE && !emitted[x as usize] {
                    st.push((x, false));
                }
            }
        }
    }
}

fn parse_values(s: &str) -> Vec<(u32, u64)> {
    // ((n12 #x0f) (n13 true) (n14 (_ bv3 4)))
    let mut r = vec![];
    let mut toks: Vec<&str> = vec![];
    let cleaned = s.replace('(', " ( ").replace(')', " ) ");
    for t in cleaned.split_whitespace() {
        toks.push(t);
    }
    let mut i = 0;
    while i < toks.len() {
        if toks[i].starts_with('n') && toks[i][1..].chars().all(|c| c.is_ascii_digit()) && toks[i].len() > 1 {
            let id: u32 = toks[i][1..].parse().unwrap();
            let v = toks[i + 1];
            if let Some(h) = v.strip_prefix("#x") {
                r.push((id, u64::from_str_radix(h, 16).unwrap()));
                i += 2;
            } else if let Some(b) = v.strip_prefix("#b") {
                r.push((id, u64::from_str_radix(b, 2).unwrap()));
                i += 2;
            } else if v == "true" || v == "false" {
                r.push((id, (v == "true") as u64));
                i += 2;
            } else if v == "(" && toks[i + 2] == "_" {
                r.push((id, toks[i + 3][2..].parse().unwrap()));
                i += 6;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    r
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
fn readable(o: &std::process::ChildStdout, ms: i32) -> bool {
    use std::os::fd::AsRawFd;
    let mut p = PollFd { fd: o.as_raw_fd(), events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, ms) > 0 }
}

impl Smt {
    /// seconds a hard query may take
    pub fn left(&self) -> u32 {
        match self.deadline {
            Some(d) => (d.saturating_duration_since(Instant::now()).as_secs() as u32 + 1).min(self.hard_s),
            None => self.hard_s,
        }
    }
    pub fn new() -> Smt {
        let find = |n: &str| -> String { std::env::var(format!("LSYM_{}", n.to_uppercase().replace('-', "_"))).unwrap_or(n.to_string()) };
        Smt {
            p: None,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            hard: 0,
            cache_hits: 0,
            secs: 0.0,
            max_q: 0.0,
            cache: Default::default(),
            quick_ms: 3000,
            hard_s: 60,
            deadline: None,
            z3: find("z3-new"),
            z3new: find("z3-new"),
            cvc5: find("cvc5"),
            dump: std::env::var("LSYM_DUMP").ok(),
        }
    }
    pub fn reset_process(&mut self) {
        self.p = None;
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.z3)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        let _ = write!(i, "(set-option :print-success false)\n(set-option :timeout {})\n", self.quick_ms);
        if std::env::var("LSYM_LOGIC").is_ok() {
            let _ = write!(i, "(set-logic QF_BV)\n");
        }
        self.p = Some(Proc { _child: c, i, o, emitted: vec![], nem: 0 });
    }
    /// Is the conjunction satisfiable?  On sat returns values for the variables in the cone.
    pub fn check(&mut self, ar: &mut Arena, cs: &[T]) -> Res {
        self.check2(ar, cs, true)
    }
    /// Without the slow solvers.
    pub fn check_quick(&mut self, ar: &mut Arena, cs: &[T]) -> Res {
        self.check2(ar, cs, false)
    }
    fn check2(&mut self, ar: &mut Arena, cs: &[T], slow: bool) -> Res {
        for &c in cs {
            if c == ar.ff {
                return Res::Unsat;
            }
        }
        let mut key: Vec<T> = cs.iter().copied().filter(|&c| c != ar.tt).collect();
        key.sort();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(vec![]);
        }
        let mut h: u64 = 0;
        for &k in &key {
            h = (h.rotate_left(5) ^ k as u64).wrapping_mul(0x517cc1b727220a95);
        }
        if let Some(v) = self.cache.get(&h) {
            for (k, r) in v {
                if *k == key {
                    self.cache_hits += 1;
                    return match r {
                        Some(m) => Res::Sat(m.clone()),
                        None => Res::Unsat,
                    };
                }
            }
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut r = self.quick(ar, &key);
        if let (Res::Unknown, true) = (&r, slow) {
            self.hard += 1;
            r = self.portfolio(ar, &key);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_q {
            self.max_q = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.cache.entry(h).or_default().push((key, Some(m.clone())));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.entry(h).or_default().push((key, None));
            }
            Res::Unknown if !slow => self.queries -= 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
    fn cone_vars(ar: &mut Arena, key: &[T]) -> (Vec<T>, Vec<u32>) {
        let mut s = 0;
        for &k in key {
            let ks = ar.i(k).sup;
            s = ar.sup_join(s, ks);
        }
        let ids = ar.sup_vars(s);
        let ts = ids.iter().map(|&i| ar.var_term[i as usize]).collect();
        (ts, ids)
    }
    fn to_model(ar: &Arena, vals: Vec<(u32, u64)>) -> Vec<(u32, u64)> {
        vals.into_iter().map(|(t, v)| (ar.n(t).k as u32, v)).collect()
    }
    fn quick(&mut self, ar: &mut Arena, key: &[T]) -> Res {
        if self.p.as_ref().map_or(false, |p| p.nem > std::env::var("LSYM_NEM").map_or(300_000, |x| x.parse().unwrap())) {
            self.p = None;
        }
        if self.p.is_none() {
            self.start();
        }
        let (vts, _) = Self::cone_vars(ar, key);
        let p = self.p.as_mut().unwrap();
        let mut s = String::new();
        emit_cone(ar, key, &mut p.emitted, &mut p.nem, &mut s);
        s.push_str("(push)\n");
        for &k in key {
            let _ = writeln!(s, "(assert {})", name(ar, k));
        }
        s.push_str("(check-sat)\n");
        let ok = p.i.write_all(s.as_bytes()).and_then(|_| p.i.flush()).is_ok();
        let mut line = String::new();
        if ok && p.o.buffer().is_empty() && !readable(p.o.get_ref(), self.quick_ms as i32 * 2 + 2000) {
            let _ = p._child.kill();
            let _ = p._child.wait();
            self.p = None;
            return Res::Unknown;
        }
        if !ok || p.o.read_line(&mut line).unwrap_or(0) == 0 {
            self.p = None;
            return Res::Unknown;
        }
        let r = match line.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vts.is_empty() {
                    Res::Sat(vec![])
                } else {
                    let mut q = String::from("(get-value (");
                    for &t in &vts {
                        let _ = write!(q, "n{} ", t);
                    }
                    q.push_str("))\n");
                    let _ = p.i.write_all(q.as_bytes());
                    let _ = p.i.flush();
                    let mut acc = String::new();
                    let mut depth = 0i32;
                    loop {
                        let mut l = String::new();
                        if p.o.read_line(&mut l).unwrap_or(0) == 0 {
                            self.p = None;
                            return Res::Unknown;
                        }
                        for c in l.bytes() {
                            if c == b'(' {
                                depth += 1
                            }
                            if c == b')' {
                                depth -= 1
                            }
                        }
                        acc.push_str(&l);
                        if depth == 0 {
                            break;
                        }
                    }
                    Res::Sat(Self::to_model(ar, parse_values(&acc)))
                }
            }
            other => {
                if other.starts_with("(error") {
                    eprintln!("smt error: {}", other);
                    self.p = None;
                    return Res::Unknown;
                }
                Res::Unknown
            }
        };
        if let Some(p) = self.p.as_mut() {
            let _ = p.i.write_all(b"(pop)\n");
        }
        r
    }
    pub fn file(ar: &mut Arena, key: &[T]) -> String {
        let (vts, _) = Self::cone_vars(ar, key);
        let mut s = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
        let mut em = vec![];
        let mut ne = 0;
        emit_cone(ar, key, &mut em, &mut ne, &mut s);
        for &k in key {
            let _ = writeln!(s, "(assert {})", name(ar, k));
        }
        s.push_str("(check-sat)\n");
        if !vts.is_empty() {
            s.push_str("(get-value (");
            for &t in &vts {
                let _ = write!(s, "n{} ", t);
            }
            s.push_str("))\n");
        }
        s
    }
    fn portfolio(&mut self, ar: &mut Arena, key: &[T]) -> Res {
        let txt = Self::file(ar, key);
        let dir = std::env::temp_dir();
        let path = dir.join(format!("lsym-{}-{}.smt2", std::process::id(), self.queries));
        std::fs::write(&path, &txt).unwrap();
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/hard-{}-{}.smt2", d, std::process::id(), self.queries), &txt);
        }
        let t = self.left();
        let mut kids = vec![];
        let mk = |prog: &str, args: Vec<String>| Command::new(prog).args(args).arg(&path).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        if let Ok(c) = mk(&self.z3new, vec![format!("-T:{}", t)]) {
            kids.push(c);
        }
        if let Ok(c) = mk(&self.cvc5, vec![format!("--tlimit={}", t as u64 * 1000), "--bitblast=eager".into(), "--produce-models".into()]) {
            kids.push(c);
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown;
        let mut live: Vec<bool> = kids.iter().map(|_| true).collect();
        'o: loop {
            for k in 0..kids.len() {
                if live[k] {
                    if let Ok(Some(_)) = kids[k].try_wait() {
                        live[k] = false;
                        let mut out = String::new();
                        use std::io::Read;
                        if let Some(mut o) = kids[k].stdout.take() {
                            let _ = o.read_to_string(&mut out);
                        }
                        let first = out.lines().next().unwrap_or("").trim().to_string();
                        if first == "unsat" {
                            res = Res::Unsat;
                            break 'o;
                        }
                        if first == "sat" {
                            let rest = out.lines().skip(1).collect::<Vec<_>>().join("\n");
                            res = Res::Sat(Self::to_model(ar, parse_values(&rest)));
                            break 'o;
                        }
                    }
                }
            }
            if live.iter().all(|x| !x) || t0.elapsed().as_secs() > t as u64 + 5 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&path);
        res
    }
}
