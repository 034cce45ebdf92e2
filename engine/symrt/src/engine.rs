use crate::poly::{Poly, Q};
use crate::z3::{Ast, Sat, Z3};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{VecDeque, BTreeMap, BTreeSet, HashMap};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ conditions

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Eq,
    Ne,
    Lt,
    Le,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Const(bool),
    Cmp(Poly, Rel),
    And(Vec<Cond>),
    Or(Vec<Cond>),
}

impl Cond {
    pub fn eq(a: &Poly, b: &Poly) -> Cond {
        Cond::Cmp(a.sub(b), Rel::Eq)
    }
    pub fn ne(a: &Poly, b: &Poly) -> Cond {
        Cond::Cmp(a.sub(b), Rel::Ne)
    }
    pub fn lt(a: &Poly, b: &Poly) -> Cond {
        Cond::Cmp(a.sub(b), Rel::Lt)
    }
    pub fn le(a: &Poly, b: &Poly) -> Cond {
        Cond::Cmp(a.sub(b), Rel::Le)
    }
    pub fn not(&self) -> Cond {
        match self {
            Cond::Const(b) => Cond::Const(!b),
            Cond::Cmp(p, Rel::Eq) => Cond::Cmp(p.clone(), Rel::Ne),
            Cond::Cmp(p, Rel::Ne) => Cond::Cmp(p.clone(), Rel::Eq),
            Cond::Cmp(p, Rel::Lt) => Cond::Cmp(p.neg(), Rel::Le),
            Cond::Cmp(p, Rel::Le) => Cond::Cmp(p.neg(), Rel::Lt),
            Cond::And(v) => Cond::Or(v.iter().map(|c| c.not()).collect()),
            Cond::Or(v) => Cond::And(v.iter().map(|c| c.not()).collect()),
        }
    }
    pub fn and(v: Vec<Cond>) -> Cond {
        Cond::And(v)
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        Cond::Or(v)
    }
}

fn rel_of(q: &Q, r: Rel) -> bool {
    match r {
        Rel::Eq => q.is_zero(),
        Rel::Ne => !q.is_zero(),
        Rel::Lt => q.is_negative(),
        Rel::Le => !q.is_positive(),
    }
}

// ------------------------------------------------------------------ context

#[derive(Clone, Debug)]
enum Def {
    Free,
    /// truncated quotient / remainder of a polynomial by a constant
    Quot(Poly, BigInt),
    Rem(Poly, BigInt),
    Trunc(Poly),
}

#[derive(Clone, Debug)]
struct Atom {
    int: bool,
    lo: Option<Q>,
    hi: Option<Q>,
    def: Def,
    ast: Ast,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Input {
    Choice(usize),
    Int(u32),
    Real(u32),
}

#[derive(Clone, Debug)]
pub enum Entry {
    /// value taken; `Some(model)` when the other side is feasible and unexplored
    Branch { val: bool, open: Option<Option<HashMap<u32, Q>>> },
    Forced(bool),
    Choice { val: usize, end: usize, atoms: u32 },
    Pick(Q),
}

#[derive(Clone, Debug)]
struct Work {
    trace: Vec<Entry>,
    model: Option<HashMap<u32, Q>>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub branches: u64,
    pub forced: u64,
    pub queries: u64,
    pub unknown: u64,
    pub checks: u64,
    pub solver_ns: u64,
    pub undecided: u64,
    pub cut: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub witnesses: BTreeMap<String, u64>,
    pub functions: BTreeSet<u64>,
    pub max_depth: u64,
    pub shapes: u64,
    /// shapes with paths left unexplored
    pub shapes_cut: u64,
}
impl Stats {
    fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.shapes += o.shapes;
        self.shapes_cut += o.shapes_cut;
        self.branches += o.branches;
        self.forced += o.forced;
        self.queries += o.queries;
        self.unknown += o.unknown;
        self.checks += o.checks;
        self.solver_ns += o.solver_ns;
        self.undecided += o.undecided;
        self.max_depth = self.max_depth.max(o.max_depth);
        for (k, v) in &o.cut {
            *self.cut.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.labels {
            *self.labels.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.witnesses {
            *self.witnesses.entry(k.clone()).or_default() += v;
        }
        self.functions.extend(o.functions.iter().copied());
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub label: String,
    pub detail: String,
    pub inputs: Vec<String>,
    pub observed: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub stats: Stats,
    pub violations: Vec<Case>,
    pub samples: Vec<Case>,
    pub complete: bool,
    pub wall: f64,
}

pub struct Ctx {
    z: Z3,
    atoms: Vec<Atom>,
    subst: HashMap<u32, Poly>,
    pub fterms: Vec<(Poly, Poly)>,
    pub iterms: Vec<Poly>,
    trace: Vec<Entry>,
    pos: usize,
    /// entries below this index were already asserted in the solver
    solved: usize,
    model: HashMap<u32, Q>,
    /// does `model` satisfy the path condition?
    model_ok: bool,
    inputs: Vec<(String, Input)>,
    facts: Vec<Cond>,
    quot: HashMap<(Poly, BigInt), (u32, u32)>,
    pub stats: Stats,
    violations: Vec<Case>,
    observed: Vec<Box<dyn FnOnce() -> String>>,
    /// evaluate everything in the current model, without splitting
    peek: bool,
    /// leading choices without a value yet are drawn at random
    sampling: bool,
    rng: u64,
    steps: u64,
    step_limit: u64,
    stack_base: usize,
    active: bool,
    pub order_mode: u8,
    pub ho_choice: bool,
    /// a value above 2^53 was rounded on this path
    pub rounded: bool,
    /// integers above 2^53 may become floating point (two values each); otherwise the path is cut
    pub allow_rounding: bool,
    /// symbolic integers are written as tokens that stand for their terms
    pub text_mode: bool,
    pub tokens: Vec<Poly>,
}

thread_local! {
    static CTX: RefCell<Option<Box<Ctx>>> = RefCell::new(None);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static STOP: AtomicBool = AtomicBool::new(false);

/// payload used to leave a path
pub struct Abort(pub String);

fn abort(why: &str) -> ! {
    panic::panic_any(Abort(why.to_string()))
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| {
        let mut b = c.borrow_mut();
        f(b.as_mut().expect("no symbolic context"))
    })
}
pub fn active() -> bool {
    CTX.with(|c| c.try_borrow().map(|b| b.as_ref().map_or(false, |c| c.active)).unwrap_or(false))
}

const SOLVER_TIMEOUT: u32 = 3000;
static DEADLINE: Mutex<Option<Instant>> = Mutex::new(None);
const STACK: usize = 256 << 20;
const STACK_LIMIT: usize = 192 << 20;
const STEP_LIMIT: u64 = 3_000_000;

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            z: Z3::new(SOLVER_TIMEOUT),
            atoms: vec![],
            subst: HashMap::new(),
            fterms: vec![],
            iterms: vec![],
            trace: vec![],
            pos: 0,
            solved: 0,
            model: HashMap::new(),
            model_ok: true,
            inputs: vec![],
            facts: vec![],
            quot: HashMap::new(),
            stats: Stats::default(),
            violations: vec![],
            observed: vec![],
            peek: false,
            sampling: false,
            rng: 1,
            steps: 0,
            step_limit: STEP_LIMIT,
            stack_base: 0,
            active: false,
            order_mode: 0,
            ho_choice: false,
            rounded: false,
            allow_rounding: false,
            text_mode: false,
            tokens: vec![],
        }
    }

    fn fresh_path(&mut self) {
        self.atoms.clear();
        self.subst.clear();
        self.fterms.clear();
        self.iterms.clear();
        self.inputs.clear();
        self.facts.clear();
        self.quot.clear();
        self.observed.clear();
        self.peek = false;
        self.pos = 0;
        self.steps = 0;
        self.step_limit = STEP_LIMIT;
        self.order_mode = 0;
        self.ho_choice = false;
        self.rounded = false;
        self.allow_rounding = false;
        self.text_mode = false;
        self.tokens.clear();
        self.z.clear_asts();
        crate::hashing::reset();
    }

    fn replaying(&self) -> bool {
        self.pos < self.solved
    }

    fn new_atom(&mut self, int: bool, lo: Option<Q>, hi: Option<Q>, def: Def) -> u32 {
        let id = self.atoms.len() as u32;
        let ast = self.z.var(&format!("{}{}", if int { "i" } else { "r" }, id), int);
        self.atoms.push(Atom { int, lo: lo.clone(), hi: hi.clone(), def, ast });
        let p = Poly::atom(id);
        if let Some(l) = lo {
            self.fact(&Cond::le(&Poly::c(l), &p));
        }
        if let Some(h) = hi {
            self.fact(&Cond::le(&p, &Poly::c(h)));
        }
        id
    }

    /// asserts something true by construction (no feasibility question)
    fn fact(&mut self, c: &Cond) {
        self.facts.push(c.clone());
        if !self.replaying() {
            let a = self.ast(c);
            self.z.assert(a);
        }
    }

    // ---------------------------------------------------------------- terms
    pub fn norm(&self, p: &Poly) -> Poly {
        if self.subst.is_empty() {
            return p.clone();
        }
        let mut p = p.clone();
        loop {
            let mut hit = None;
            for a in p.atoms() {
                if self.subst.contains_key(&a) {
                    hit = Some(a);
                    break;
                }
            }
            match hit {
                Some(a) => p = p.subst(a, &self.subst[&a]),
                None => return p,
            }
        }
    }

    fn poly_ast(&mut self, p: &Poly) -> Ast {
        // integer arithmetic when everything is integral
        let atoms = p.atoms();
        let all_int = atoms.iter().all(|a| self.atoms[*a as usize].int);
        let scaled;
        let p = if all_int && !p.int_coefs() {
            let mut l = BigInt::one();
            for (_, q) in &p.0 {
                l = l.lcm(q.denom());
            }
            scaled = p.scale(&Q::from_integer(l));
            &scaled
        } else {
            p
        };
        if p.is_zero() {
            return self.z.num("0", true);
        }
        let mut terms = Vec::new();
        for (m, q) in &p.0 {
            let mut fs = Vec::new();
            if !q.is_one() || m.is_empty() {
                let s = if all_int { q.numer().to_string() } else { format!("{}/{}", q.numer(), q.denom()) };
                fs.push(self.z.num(&s, all_int));
            }
            for (a, e) in m {
                let at = &self.atoms[*a as usize];
                let (i, mut x) = (at.int, at.ast);
                if i && !all_int {
                    x = self.z.int2real(x);
                }
                for _ in 0..*e {
                    fs.push(x);
                }
            }
            terms.push(self.z.mul(&fs));
        }
        self.z.add(&terms)
    }

    fn ast(&mut self, c: &Cond) -> Ast {
        match c {
            Cond::Const(b) => self.z.boolean(*b),
            Cond::Cmp(p, r) => {
                if let Some(q) = p.constant() {
                    return self.z.boolean(rel_of(&q, *r));
                }
                let atoms = p.atoms();
                let all_int = atoms.iter().all(|a| self.atoms[*a as usize].int);
                let x = self.poly_ast(p);
                let zero = self.z.num("0", all_int);
                match r {
                    Rel::Eq => self.z.eq(x, zero),
                    Rel::Ne => {
                        let e = self.z.eq(x, zero);
                        self.z.not(e)
                    }
                    Rel::Lt => self.z.lt(x, zero),
                    Rel::Le => self.z.le(x, zero),
                }
            }
            Cond::And(v) => {
                let xs: Vec<Ast> = v.iter().map(|c| self.ast(c)).collect();
                self.z.and(&xs)
            }
            Cond::Or(v) => {
                let xs: Vec<Ast> = v.iter().map(|c| self.ast(c)).collect();
                self.z.or(&xs)
            }
        }
    }

    /// interval of a polynomial from the bounds of its atoms
    pub fn interval(&self, p: &Poly) -> (Option<Q>, Option<Q>) {
        let mut lo = Some(Q::zero());
        let mut hi = Some(Q::zero());
        for (m, q) in &p.0 {
            let (mut l, mut h) = (Some(Q::one()), Some(Q::one()));
            for (a, e) in m {
                let at = &self.atoms[*a as usize];
                let (al, ah) = (at.lo.clone(), at.hi.clone());
                let (pl, ph) = match (al, ah) {
                    (Some(x), Some(y)) => {
                        let (mut px, mut py) = (Q::one(), Q::one());
                        for _ in 0..*e {
                            px *= &x;
                            py *= &y;
                        }
                        if e % 2 == 0 {
                            let zero_in = !x.is_positive() && !y.is_negative();
                            let mx = if px > py { px.clone() } else { py.clone() };
                            let mn = if zero_in { Q::zero() } else if px < py { px } else { py };
                            (Some(mn), Some(mx))
                        } else {
                            (Some(px), Some(py))
                        }
                    }
                    (Some(x), None) if !x.is_negative() => {
                        let mut px = Q::one();
                        for _ in 0..*e {
                            px *= &x;
                        }
                        (Some(px), None)
                    }
                    _ => {
                        if e % 2 == 0 {
                            (Some(Q::zero()), None)
                        } else {
                            (None, None)
                        }
                    }
                };
                // multiply intervals
                let r = match (l, h, pl, ph) {
                    (Some(a), Some(b), Some(c), Some(d)) => {
                        let v = [&a * &c, &a * &d, &b * &c, &b * &d];
                        (v.iter().min().cloned(), v.iter().max().cloned())
                    }
                    (Some(a), None, Some(c), _) if !a.is_negative() && !c.is_negative() => (Some(a * c), None),
                    (Some(a), Some(_), Some(c), None) if !a.is_negative() && !c.is_negative() => (Some(a * c), None),
                    _ => (None, None),
                };
                l = r.0;
                h = r.1;
            }
            let (tl, th) = if q.is_negative() {
                (h.map(|x| x * q), l.map(|x| x * q))
            } else {
                (l.map(|x| x * q), h.map(|x| x * q))
            };
            lo = match (lo, tl) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
            hi = match (hi, th) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
        }
        (lo, hi)
    }

    fn simp(&self, c: &Cond) -> Cond {
        match c {
            Cond::Const(b) => Cond::Const(*b),
            Cond::Cmp(p, r) => {
                let p = self.norm(p);
                if let Some(q) = p.constant() {
                    return Cond::Const(rel_of(&q, *r));
                }
                let (lo, hi) = self.interval(&p);
                let pos = lo.as_ref().map_or(false, |x| x.is_positive());
                let nneg = lo.as_ref().map_or(false, |x| !x.is_negative());
                let neg = hi.as_ref().map_or(false, |x| x.is_negative());
                let npos = hi.as_ref().map_or(false, |x| !x.is_positive());
                match r {
                    Rel::Eq if pos || neg => return Cond::Const(false),
                    Rel::Ne if pos || neg => return Cond::Const(true),
                    Rel::Lt if neg => return Cond::Const(true),
                    Rel::Lt if nneg => return Cond::Const(false),
                    Rel::Le if npos => return Cond::Const(true),
                    Rel::Le if pos => return Cond::Const(false),
                    _ => {}
                }
                Cond::Cmp(p, *r)
            }
            Cond::And(v) => {
                let mut out = vec![];
                for c in v {
                    match self.simp(c) {
                        Cond::Const(true) => {}
                        Cond::Const(false) => return Cond::Const(false),
                        c => out.push(c),
                    }
                }
                match out.len() {
                    0 => Cond::Const(true),
                    1 => out.pop().unwrap(),
                    _ => Cond::And(out),
                }
            }
            Cond::Or(v) => {
                let mut out = vec![];
                for c in v {
                    match self.simp(c) {
                        Cond::Const(false) => {}
                        Cond::Const(true) => return Cond::Const(true),
                        c => out.push(c),
                    }
                }
                match out.len() {
                    0 => Cond::Const(false),
                    1 => out.pop().unwrap(),
                    _ => Cond::Or(out),
                }
            }
        }
    }

    // ---------------------------------------------------------------- models
    fn value_of(&mut self, a: u32) -> Q {
        if let Some(v) = self.model.get(&a) {
            return v.clone();
        }
        let at = self.atoms[a as usize].clone();
        let v = match at.def {
            Def::Free => {
                let mut v = match (&at.lo, &at.hi) {
                    (Some(l), _) => l.clone(),
                    (None, Some(h)) => h.clone(),
                    _ => Q::from_integer(BigInt::from(2 + a as i64)),
                };
                // a value away from the special cases when there is room
                if let (Some(l), Some(h)) = (&at.lo, &at.hi) {
                    let want = Q::from_integer(BigInt::from(2 + (a as i64 % 3)));
                    if l <= &want && &want <= h {
                        v = want;
                    }
                }
                v
            }
            Def::Quot(p, b) => {
                let x = self.eval(&p);
                let t = x.numer().clone();
                Q::from_integer(&t / &b)
            }
            Def::Rem(p, b) => {
                let x = self.eval(&p);
                let t = x.numer().clone();
                Q::from_integer(&t % &b)
            }
            Def::Trunc(p) => self.eval(&p).trunc(),
        };
        self.model.insert(a, v.clone());
        v
    }
    pub fn eval(&mut self, p: &Poly) -> Q {
        let atoms = p.atoms();
        let mut m = HashMap::new();
        for a in atoms {
            let v = self.value_of(a);
            m.insert(a, v);
        }
        p.eval(&mut |a| m[&a].clone())
    }
    fn eval_cond(&mut self, c: &Cond) -> bool {
        match c {
            Cond::Const(b) => *b,
            Cond::Cmp(p, r) => rel_of(&self.eval(p), *r),
            Cond::And(v) => v.iter().all(|c| self.eval_cond(c)),
            Cond::Or(v) => v.iter().any(|c| self.eval_cond(c)),
        }
    }
    fn read_model(&mut self, vals: Vec<Option<String>>) -> HashMap<u32, Q> {
        let mut m = HashMap::new();
        for (i, v) in vals.into_iter().enumerate() {
            if let Some(q) = v.and_then(|s| parse_q(&s)) {
                m.insert(i as u32, q);
            }
        }
        m
    }
    fn asts(&self) -> Vec<Ast> {
        self.atoms.iter().map(|a| a.ast).collect()
    }

    /// is pc /\ c satisfiable?
    fn query(&mut self, c: &Cond) -> (Sat, HashMap<u32, Q>) {
        let t = Instant::now();
        self.stats.queries += 1;
        self.z.push();
        let a = self.ast(c);
        self.z.assert(a);
        let mut r = self.z.check();
        let mut m = HashMap::new();
        if r == Sat::Sat {
            let xs = self.asts();
            let vals = self.z.model(&xs);
            m = self.read_model(vals);
        }
        self.z.pop(1);
        if r == Sat::Unknown && !STOP.load(AO::Relaxed) && Instant::now() < *DEADLINE.lock().unwrap().get_or_insert(Instant::now()) {
            let (r2, m2) = self.query_fresh(c);
            r = r2;
            m = m2;
        }
        self.stats.solver_ns += t.elapsed().as_nanos() as u64;
        if r == Sat::Unknown {
            self.stats.unknown += 1;
        }
        (r, m)
    }

    /// second attempt from scratch with the logic-specific solver and the known substitutions applied
    fn query_fresh(&mut self, c: &Cond) -> (Sat, HashMap<u32, Q>) {
        let facts = self.facts.clone();
        let mut conds: Vec<Cond> = vec![];
        for f in facts.iter().chain(std::iter::once(c)) {
            match self.simp_nointerval(f) {
                Cond::Const(true) => {}
                Cond::Const(false) => return (Sat::Unsat, HashMap::new()),
                c => conds.push(c),
            }
        }
        let defs: Vec<(u32, Poly)> = self.subst.iter().map(|(a, p)| (*a, p.clone())).collect();
        let mut used = BTreeSet::new();
        for c in &conds {
            cond_atoms(c, &mut used);
        }
        let any_int = used.iter().any(|a| self.atoms[*a as usize].int);
        let any_real = used.iter().any(|a| !self.atoms[*a as usize].int);
        let logic = match (any_int, any_real) {
            (true, true) => "ALL",
            (true, false) => "QF_NIA",
            _ => "QF_NRA",
        };
        let xs: Vec<Ast> = conds.iter().map(|c| self.ast(c)).collect();
        let vars = self.asts();
        let (r, vals) = self.z.check_fresh(logic, &xs, SOLVER_TIMEOUT, &vars);
        let mut m = HashMap::new();
        if r == Sat::Sat {
            m = self.read_model(vals);
            // atoms eliminated by substitution
            for (a, p) in defs {
                let p = self.norm(&p);
                let mut mm = m.clone();
                let v = p.eval(&mut |x| mm.entry(x).or_insert_with(Q::zero).clone());
                m.insert(a, v);
            }
        }
        (r, m)
    }
    fn simp_nointerval(&self, c: &Cond) -> Cond {
        match c {
            Cond::Cmp(p, r) => {
                let p = self.norm(p);
                match p.constant() {
                    Some(q) => Cond::Const(rel_of(&q, *r)),
                    None => Cond::Cmp(p, *r),
                }
            }
            Cond::And(v) => {
                let v: Vec<Cond> = v.iter().map(|c| self.simp_nointerval(c)).collect();
                if v.iter().any(|c| *c == Cond::Const(false)) {
                    return Cond::Const(false);
                }
                Cond::And(v)
            }
            Cond::Or(v) => {
                let v: Vec<Cond> = v.iter().map(|c| self.simp_nointerval(c)).collect();
                if v.iter().any(|c| *c == Cond::Const(true)) {
                    return Cond::Const(true);
                }
                Cond::Or(v)
            }
            c => c.clone(),
        }
    }

    /// consequences of a taken condition: substitutions and tighter bounds
    fn learn(&mut self, c: &Cond) {
        self.facts.push(c.clone());
        self.learn_rec(c)
    }
    fn learn_rec(&mut self, c: &Cond) {
        match c {
            Cond::And(v) => {
                for c in v.clone() {
                    self.learn_rec(&c);
                }
            }
            Cond::Cmp(p, r) => {
                let p = self.norm(p);
                if p.constant().is_some() {
                    return;
                }
                // single linear atom: bounds
                let atoms = p.atoms();
                if atoms.len() == 1 && p.0.iter().all(|(m, _)| m.is_empty() || (m.len() == 1 && m[0].1 == 1)) {
                    let a = atoms[0];
                    let mut k = Q::zero();
                    let mut c0 = Q::zero();
                    for (m, q) in &p.0 {
                        if m.is_empty() {
                            c0 = q.clone()
                        } else {
                            k = q.clone()
                        }
                    }
                    let v = -&c0 / &k; // boundary
                    let int = self.atoms[a as usize].int;
                    let at = &mut self.atoms[a as usize];
                    match r {
                        Rel::Eq => {
                            at.lo = Some(v.clone());
                            at.hi = Some(v.clone());
                            self.subst.insert(a, Poly::c(v));
                            return;
                        }
                        Rel::Ne => {
                            if int && v.is_integer() {
                                if at.lo.as_ref() == Some(&v) {
                                    at.lo = Some(&v + Q::one())
                                }
                                if at.hi.as_ref() == Some(&v) {
                                    at.hi = Some(&v - Q::one())
                                }
                            }
                        }
                        Rel::Lt | Rel::Le => {
                            let strict = *r == Rel::Lt;
                            if k.is_positive() {
                                // a < v
                                let b = if int {
                                    let f = v.floor();
                                    if strict && f == v { f - Q::one() } else { f }
                                } else {
                                    v
                                };
                                if at.hi.as_ref().map_or(true, |h| &b < h) {
                                    at.hi = Some(b)
                                }
                            } else {
                                let b = if int {
                                    let f = v.ceil();
                                    if strict && f == v { f + Q::one() } else { f }
                                } else {
                                    v
                                };
                                if at.lo.as_ref().map_or(true, |h| &b > h) {
                                    at.lo = Some(b)
                                }
                            }
                        }
                    }
                    let at = &self.atoms[a as usize];
                    if let (Some(l), Some(h)) = (&at.lo, &at.hi) {
                        if l == h && int {
                            let v = l.clone();
                            self.subst.insert(a, Poly::c(v));
                        }
                    }
                    return;
                }
                if *r == Rel::Eq {
                    let atoms_ref = &self.atoms;
                    let all_int = p.int_coefs() && atoms.iter().all(|a| atoms_ref[*a as usize].int);
                    let found = p.solvable(&|a| !atoms_ref[a as usize].int || all_int);
                    if let Some((a, k)) = found {
                        // a*k + rest = 0
                        let rest = p.sub(&Poly::atom(a).scale(&k));
                        let v = rest.scale(&(-Q::one() / k));
                        self.subst.insert(a, v);
                    }
                }
            }
            _ => {}
        }
    }

    fn take(&mut self, c: &Cond) {
        if !self.replaying() {
            self.z.push();
            let a = self.ast(c);
            self.z.assert(a);
        }
    }

    /// decides a branch condition under the path condition
    pub fn decide(&mut self, c: &Cond) -> bool {
        let c = match self.simp(c) {
            Cond::Const(b) => return b,
            c => c,
        };
        if self.peek {
            return self.eval_cond(&c);
        }
        self.stats.branches += 1;
        if self.pos < self.trace.len() {
            let e = self.trace[self.pos].clone();
            match e {
                Entry::Branch { val, .. } => {
                    let t = if val { c } else { c.not() };
                    self.take(&t);
                    self.pos += 1;
                    self.learn(&t);
                    return val;
                }
                Entry::Forced(b) => {
                    self.pos += 1;
                    let t = if b { c } else { c.not() };
                    self.learn(&t);
                    return b;
                }
                e => panic::panic_any(Abort(format!("engine: trace mismatch {:?}", e))),
            }
        }
        if STOP.load(AO::Relaxed) {
            abort("stopped");
        }
        if !self.model_ok {
            let (r, m) = self.query(&Cond::Const(true));
            match r {
                Sat::Sat => {
                    self.model = m;
                    self.model_ok = true;
                }
                Sat::Unsat => {
                    self.stats.infeasible += 1;
                    abort("infeasible")
                }
                Sat::Unknown => abort("limit: path feasibility undecided"),
            }
        }
        let here = self.eval_cond(&c);
        let other = if here { c.not() } else { c.clone() };
        let (r, m) = self.query(&other);
        let t = if here { c.clone() } else { c.not() };
        match r {
            Sat::Unsat => {
                self.stats.forced += 1;
                self.trace.push(Entry::Forced(here));
                self.pos += 1;
                self.solved = self.pos;
                self.learn(&t);
            }
            _ => {
                self.solved = self.pos; // entries so far are in the solver
                self.take(&t);
                self.trace.push(Entry::Branch { val: here, open: Some(if r == Sat::Sat { Some(m) } else { None }) });
                self.pos += 1;
                self.solved = self.pos;
                self.learn(&t);
            }
        }
        here
    }

    fn choice(&mut self, n: usize) -> usize {
        if n <= 1 || self.peek {
            return 0;
        }
        if self.pos < self.trace.len() {
            if let Entry::Choice { val, .. } = self.trace[self.pos] {
                self.pos += 1;
                return val;
            }
            abort("engine: trace mismatch (choice)");
        }
        if STOP.load(AO::Relaxed) {
            abort("stopped");
        }
        let atoms = self.atoms.len() as u32;
        let leading = self.sampling && shape_len(&self.trace) == self.trace.len();
        let val = if leading { random(&mut self.rng, n) } else { 0 };
        self.trace.push(Entry::Choice { val, end: n, atoms });
        self.pos += 1;
        self.solved = self.pos;
        val
    }

    pub fn concretise(&mut self, p: &Poly) -> Q {
        self.concretise_some(p, 100_000, "limit: concretisation")
    }
    /// at most `max` values; the others are cut and counted under `why`
    pub fn concretise_some(&mut self, p: &Poly, max: usize, why: &str) -> Q {
        if self.peek {
            let q = self.norm(p);
            return self.eval(&q);
        }
        let mut n = 0;
        // a small range: one alternative per value
        let q = self.norm(p);
        let atoms = q.atoms();
        if atoms.len() == 1 && q.0.iter().all(|(m, _)| m.is_empty() || m[0].1 == 1) && self.atoms[atoms[0] as usize].int {
            let at = &self.atoms[atoms[0] as usize];
            if let (Some(l), Some(h)) = (at.lo.clone(), at.hi.clone()) {
                if let Some(w) = (&h - &l).to_integer().to_usize() {
                    if w <= 64 {
                        let k = self.choice(w + 1);
                        let v = l + Q::from_integer(BigInt::from(k));
                        self.assume(&Cond::eq(&Poly::atom(atoms[0]), &Poly::c(v)));
                    }
                }
            }
        }
        loop {
            let q = self.norm(p);
            if let Some(k) = q.constant() {
                return k;
            }
            if let (Some(l), Some(h)) = self.interval(&q) {
                if l == h {
                    return l;
                }
            }
            n += 1;
            if n > max {
                abort(why);
            }
            let v = if self.pos < self.trace.len() {
                match self.trace[self.pos].clone() {
                    Entry::Pick(v) => v,
                    e => panic::panic_any(Abort(format!("engine: trace mismatch (pick) {:?}", e))),
                }
            } else {
                if std::env::var_os("SYM_PICKS").is_some() {
                    eprintln!("pick\n{}", std::backtrace::Backtrace::force_capture());
                }
                let v = self.eval(&q);
                self.trace.push(Entry::Pick(v.clone()));
                v
            };
            self.pos += 1;
            if self.pos > self.solved && self.pos == self.trace.len() {
                self.solved = self.pos;
            }
            if self.decide(&Cond::eq(&q, &Poly::c(v.clone()))) {
                return v;
            }
        }
    }

    pub fn assume(&mut self, cond: &Cond) {
        let s = match self.simp(cond) {
            Cond::Const(true) => return,
            Cond::Const(false) => {
                self.stats.infeasible += 1;
                abort("infeasible")
            }
            s => s,
        };
        // same bookkeeping as a forced branch
        if self.pos < self.trace.len() {
            let e = self.trace[self.pos].clone();
            if !matches!(e, Entry::Branch { .. }) {
                abort("engine: trace mismatch (assume)");
            }
            self.take(&s);
            self.pos += 1;
            self.learn(&s);
            return;
        }
        if !self.model_ok || !self.eval_cond(&s) {
            let (r, m2) = self.query(&s);
            match r {
                Sat::Unsat => {
                    self.stats.infeasible += 1;
                    abort("infeasible")
                }
                Sat::Sat => {
                    self.model = m2;
                    self.model_ok = true;
                }
                Sat::Unknown => abort("limit: assumption undecided"),
            }
        }
        self.solved = self.pos;
        self.take(&s);
        self.trace.push(Entry::Branch { val: true, open: None });
        self.pos += 1;
        self.solved = self.pos;
        self.learn(&s);
    }

    // ---------------------------------------------------------------- number theory
    /// truncated quotient and remainder of an integer term by a non-zero constant
    pub fn quotrem(&mut self, a: &Poly, b: &BigInt) -> (Poly, Poly) {
        let a = self.norm(a);
        if let Some(k) = a.constant() {
            let n = k.numer();
            return (Poly::big(n / b), Poly::big(n % b));
        }
        let inv = Q::new(BigInt::one(), b.clone());
        let ex = a.scale(&inv);
        if ex.int_coefs() {
            return (ex, Poly::zero());
        }
        let key = (a.clone(), b.clone());
        let (q, r) = match self.quot.get(&key) {
            Some(x) => *x,
            None => {
                let (lo, hi) = self.interval(&a);
                let m = b.abs() - BigInt::one();
                let nonneg = lo.as_ref().map_or(false, |x| !x.is_negative());
                let nonpos = hi.as_ref().map_or(false, |x| !x.is_positive());
                let (ql, qh) = match (&lo, &hi) {
                    (Some(l), Some(h)) => {
                        let x = (l * &inv).trunc();
                        let y = (h * &inv).trunc();
                        let (mn, mx) = if x < y { (x, y) } else { (y, x) };
                        let z = Q::zero();
                        // trunc is monotone; include 0 when the interval straddles it
                        (Some(if mn > z && !nonneg { z.clone() } else { mn }), Some(mx))
                    }
                    _ => (None, None),
                };
                let q = self.new_atom(true, ql, qh, Def::Quot(a.clone(), b.clone()));
                let r = self.new_atom(
                    true,
                    Some(if nonneg { Q::zero() } else { Q::from_integer(-m.clone()) }),
                    Some(if nonpos { Q::zero() } else { Q::from_integer(m) }),
                    Def::Rem(a.clone(), b.clone()),
                );
                let eq = Cond::eq(&a, &Poly::atom(q).scale(&Q::from_integer(b.clone())).add(&Poly::atom(r)));
                self.fact(&eq);
                if !nonneg && !nonpos {
                    // sign of the remainder follows the dividend
                    let s1 = Cond::or(vec![Cond::lt(&a, &Poly::zero()), Cond::le(&Poly::zero(), &Poly::atom(r))]);
                    let s2 = Cond::or(vec![Cond::lt(&Poly::zero(), &a), Cond::le(&Poly::atom(r), &Poly::zero())]);
                    self.fact(&s1);
                    self.fact(&s2);
                }
                self.quot.insert(key, (q, r));
                (q, r)
            }
        };
        if self.decide(&Cond::Cmp(Poly::atom(r), Rel::Eq)) {
            // a = b*q exactly: make the structure visible to later terms
            let e = Cond::eq(&a, &Poly::atom(q).scale(&Q::from_integer(b.clone())));
            self.learn_rec(&e);
            (self.norm(&Poly::atom(q)), Poly::zero())
        } else {
            (self.norm(&Poly::atom(q)), self.norm(&Poly::atom(r)))
        }
    }

    pub fn quotrem_sym(&mut self, a: &Poly, b: &Poly) -> (Poly, Poly) {
        // exact multiples first
        let (na, nb) = (self.norm(a), self.norm(b));
        if let Some(k) = nb.constant() {
            return self.quotrem(&na, k.numer());
        }
        if na == nb {
            return (Poly::one(), Poly::zero());
        }
        if na == nb.neg() {
            return (Poly::int(-1), Poly::zero());
        }
        if let Some(q) = mono_div(&na, &nb) {
            return (q, Poly::zero());
        }
        let k = self.concretise(&nb);
        self.quotrem(&na, k.numer())
    }

    pub fn abs(&mut self, a: &Poly) -> Poly {
        if self.decide(&Cond::lt(a, &Poly::zero())) {
            self.norm(a).neg()
        } else {
            self.norm(a)
        }
    }

    pub fn gcd(&mut self, a: &Poly, b: &Poly) -> Poly {
        let (mut a, mut b) = (self.norm(a), self.norm(b));
        if a == b || a == b.neg() {
            return self.abs(&a);
        }
        if self.decide(&Cond::Cmp(a.clone(), Rel::Eq)) {
            return self.abs(&b);
        }
        if self.decide(&Cond::Cmp(b.clone(), Rel::Eq)) {
            return self.abs(&a);
        }
        a = self.norm(&a);
        b = self.norm(&b);
        if a.constant().is_none() && b.constant().is_none() {
            let w = |c: &Ctx, p: &Poly| match c.interval(p) {
                (Some(l), Some(h)) => Some(h - l),
                _ => None,
            };
            let (wa, wb) = (w(self, &a), w(self, &b));
            let pick_a = match (wa, wb) {
                (Some(x), Some(y)) => x < y,
                (Some(_), None) => true,
                _ => false,
            };
            if pick_a {
                self.concretise(&a);
            } else {
                self.concretise(&b);
            }
            a = self.norm(&a);
            b = self.norm(&b);
        }
        let (k, mut t) = match (a.constant(), b.constant()) {
            (Some(x), Some(y)) => return Poly::big(x.numer().gcd(y.numer())),
            (Some(x), None) => (x, b),
            (None, Some(y)) => (y, a),
            _ => {
                // interval collapsed but not substituted: evaluate
                let x = self.concretise(&a);
                (x, b)
            }
        };
        let n = k.numer().abs();
        if n.is_one() {
            return Poly::one();
        }
        let Some(fs) = factor(&n) else {
            let x = self.concretise(&t);
            return Poly::big(n.gcd(x.numer()));
        };
        let mut g = BigInt::one();
        for (p, e) in fs {
            let pb = BigInt::from(p);
            for _ in 0..e {
                let (q, r) = self.quotrem(&t, &pb);
                if !r.is_zero() {
                    break;
                }
                g *= &pb;
                t = q;
            }
        }
        Poly::big(g)
    }

    // ---------------------------------------------------------------- inputs, assumptions, checks
    fn input_strings(&mut self) -> Vec<String> {
        let ins = self.inputs.clone();
        ins.iter()
            .map(|(n, i)| match i {
                Input::Choice(c) => format!("{}={}", n, c),
                Input::Int(a) | Input::Real(a) => {
                    let p = self.norm(&Poly::atom(*a));
                    let v = self.eval(&p);
                    if v.is_integer() {
                        format!("{}={}", n, v.numer())
                    } else {
                        format!("{}={}/{}", n, v.numer(), v.denom())
                    }
                }
            })
            .collect()
    }

    /// a violation on the path as it stands, if the path is feasible
    fn violation_here(&mut self, label: &str, detail: String) {
        if !self.model_ok {
            match self.query(&Cond::Const(true)) {
                (Sat::Sat, m) => {
                    self.model = m;
                    self.model_ok = true;
                }
                (Sat::Unsat, _) => {
                    self.stats.infeasible += 1;
                    return;
                }
                _ => {
                    *self.stats.cut.entry("limit: path feasibility undecided".into()).or_default() += 1;
                    return;
                }
            }
        }
        self.stats.paths += 1;
        let m = self.model.clone();
        self.violation(label, detail, m);
    }
    fn violation(&mut self, label: &str, detail: String, model: HashMap<u32, Q>) {
        let saved = std::mem::replace(&mut self.model, model);
        let inputs = self.input_strings();
        self.model = saved;
        self.violations.push(Case { label: label.to_string(), detail, inputs, observed: vec![] });
    }
}

fn cond_atoms(c: &Cond, out: &mut BTreeSet<u32>) {
    match c {
        Cond::Cmp(p, _) => out.extend(p.atoms()),
        Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| cond_atoms(c, out)),
        _ => {}
    }
}

/// division by a monomial, when exact with integer coefficients
fn mono_div(a: &Poly, b: &Poly) -> Option<Poly> {
    if b.0.len() != 1 {
        return None;
    }
    let (mb, qb) = &b.0[0];
    let mut out = vec![];
    for (m, q) in &a.0 {
        let k = q / qb;
        if !k.is_integer() {
            return None;
        }
        let mut nm = vec![];
        let mut need: Vec<(u32, u32)> = mb.clone();
        for (x, e) in m {
            let mut e = *e;
            if let Some(nd) = need.iter_mut().find(|n| n.0 == *x) {
                if nd.1 > e {
                    return None;
                }
                e -= nd.1;
                nd.1 = 0;
            }
            if e > 0 {
                nm.push((*x, e));
            }
        }
        if need.iter().any(|n| n.1 > 0) {
            return None;
        }
        out.push((nm, k));
    }
    out.sort_by(|x, y| x.0.cmp(&y.0));
    Some(Poly(out))
}

fn factor(n: &BigInt) -> Option<Vec<(u64, u32)>> {
    let mut n = n.clone();
    let mut v = vec![];
    let mut p = 2u64;
    loop {
        if let Some(m) = n.to_u64() {
            if p * p > m {
                if m > 1 {
                    v.push((m, 1));
                }
                return Some(v);
            }
        }
        if p > 1 << 16 {
            return None;
        }
        let mut e = 0;
        while (&n % p).is_zero() {
            n /= p;
            e += 1;
        }
        if e > 0 {
            v.push((p, e));
        }
        p += 1;
    }
}

pub fn parse_q(s: &str) -> Option<Q> {
    let s = s.trim();
    if let Some((a, b)) = s.split_once('/') {
        let (a, b): (BigInt, BigInt) = (a.trim().parse().ok()?, b.trim().parse().ok()?);
        if b.is_zero() {
            return None;
        }
        return Some(Q::new(a, b));
    }
    s.parse::<BigInt>().ok().map(Q::from_integer)
}

// ------------------------------------------------------------------ public API for harnesses

pub fn choice(name: &str, n: usize) -> usize {
    with(|c| {
        let v = c.choice(n);
        c.inputs.push((name.to_string(), Input::Choice(v)));
        v
    })
}
/// choice made by the environment (e.g. a hash table's iteration order), not part of the replay
pub fn env_choice(n: usize) -> usize {
    with(|c| c.choice(n))
}
pub fn int_input(name: &str, lo: &BigInt, hi: &BigInt) -> Poly {
    with(|c| {
        let a = c.new_atom(true, Some(Q::from_integer(lo.clone())), Some(Q::from_integer(hi.clone())), Def::Free);
        c.inputs.push((name.to_string(), Input::Int(a)));
        Poly::atom(a)
    })
}
pub fn real_input(name: &str, lo: Option<Q>, hi: Option<Q>) -> Poly {
    with(|c| {
        let a = c.new_atom(false, lo, hi, Def::Free);
        c.inputs.push((name.to_string(), Input::Real(a)));
        Poly::atom(a)
    })
}
/// an auxiliary real unknown of the oracle (not an input)
pub fn aux_real() -> Poly {
    with(|c| Poly::atom(c.new_atom(false, None, None, Def::Free)))
}
pub fn assume(cond: &Cond) {
    with(|c| c.assume(cond))
}
pub fn decide(cond: &Cond) -> bool {
    with(|c| c.decide(cond))
}
pub fn concretise(p: &Poly) -> Q {
    with(|c| c.concretise(p))
}
pub fn norm(p: &Poly) -> Poly {
    with(|c| c.norm(p))
}
/// asserts a property on every input of the current path
pub fn check(label: &str, cond: &Cond, detail: impl FnOnce() -> String) {
    let mut detail = Some(detail);
    for round in 0..2 {
        let r = with(|c| {
            // the part of the trace below belongs to the solver already?
            if c.pos < c.trace.len() {
                return Some(None); // checked when this prefix was first explored
            }
            if round == 0 {
                c.stats.checks += 1;
                *c.stats.labels.entry(label.to_string()).or_default() += 1;
            }
            if STOP.load(AO::Relaxed) {
                abort("stopped");
            }
            let neg = c.simp_nointerval(&cond.not());
            let (r, m) = c.query(&neg);
            match r {
                Sat::Unsat => Some(None),
                Sat::Sat => Some(Some(m)),
                Sat::Unknown => None,
            }
        });
        match r {
            Some(None) => return,
            Some(Some(m)) => {
                let saved = with(|c| {
                    c.peek = true;
                    std::mem::replace(&mut c.model, m.clone())
                });
                let d = (detail.take().unwrap())();
                with(|c| {
                    c.peek = false;
                    c.model = saved;
                    c.violation(label, d, m)
                });
                abort("violation");
            }
            None => {
                if round == 0 {
                    // too hard: split on the integer inputs and ask again
                    let ints: Vec<u32> = with(|c| {
                        c.inputs.iter().filter_map(|(_, i)| if let Input::Int(a) = i { Some(*a) } else { None }).collect()
                    });
                    for a in ints {
                        with(|c| c.concretise(&Poly::atom(a)));
                    }
                } else {
                    with(|c| c.stats.undecided += 1);
                }
            }
        }
    }
}
/// a point that must be reachable for the harness to mean anything
pub fn witness(label: &str) {
    with(|c| *c.stats.witnesses.entry(label.to_string()).or_default() += 1)
}
/// records an observation compared with the native run of the same inputs
pub fn observe(f: impl FnOnce() -> String + 'static) {
    with(|c| c.observed.push(Box::new(f)))
}
/// value of a term in the current model of the path
pub fn model_value(p: &Poly) -> Q {
    with(|c| {
        let p = c.norm(p);
        c.eval(&p)
    })
}
pub fn fail(label: &str, detail: String) -> ! {
    check(label, &Cond::Const(false), || detail);
    abort("violation")
}
pub fn set_order_mode(m: u8) {
    with(|c| c.order_mode = m)
}
pub fn order_mode() -> u8 {
    if !active() {
        return 0;
    }
    with(|c| c.order_mode)
}
pub fn set_text_mode(on: bool) {
    with(|c| c.text_mode = on)
}
/// what is written in place of a symbolic integer
pub fn text_token(p: &Poly) -> Option<String> {
    if !active() {
        return None;
    }
    with(|c| {
        if !c.text_mode || c.peek {
            return None;
        }
        c.tokens.push(p.clone());
        Some(format!("\u{27e6}{}\u{27e7}", c.tokens.len() - 1))
    })
}
pub fn token_term(k: usize) -> Option<Poly> {
    with(|c| c.tokens.get(k).cloned())
}
/// allow this execution `k` times the usual number of steps
pub fn long_run(k: u64) {
    with(|c| c.step_limit = STEP_LIMIT * k);
}
pub fn enter(id: u64) {
    if !active() {
        return;
    }
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    let over = with(|c| {
        c.stats.functions.insert(id);
        c.steps += 1;
        let used = c.stack_base.wrapping_sub(sp);
        if c.steps % 4096 == 0 && STOP.load(AO::Relaxed) {
            3
        } else if used < (1 << 40) && used > STACK_LIMIT {
            1
        } else if c.steps > c.step_limit {
            2
        } else {
            0
        }
    });
    match over {
        1 => abort("runaway: stack exhausted (unbounded recursion)"),
        2 => abort("runaway: step limit reached"),
        3 => abort("stopped"),
        _ => {}
    }
}

// ------------------------------------------------------------------ explorer

pub struct Config {
    pub threads: usize,
    pub budget: Duration,
    pub max_violations: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub panics_are_violations: bool,
    /// paths explored per shape (combination of leading choices); 0: all of them
    pub shape_cap: usize,
    pub seed: u64,
}

struct Shared {
    /// parts of shapes given away, busy workers, done
    queue: Mutex<(Vec<Work>, usize, bool)>,
    shapes: Mutex<Shapes>,
    cv: Condvar,
    hungry: AtomicUsize,
    /// the exploration is over: a worker still inside a path is left behind
    over: AtomicBool,
}
/// time after the deadline for the paths under way to end
const GRACE: Duration = Duration::from_secs(6);

pub fn explore(f: fn(), cfg: &Config) -> Report {
    STOP.store(false, AO::SeqCst);
    panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
    }));
    let start = Instant::now();
    let deadline = start + cfg.budget;
    *DEADLINE.lock().unwrap() = Some(deadline);
    let shared = Arc::new(Shared {
        queue: Mutex::new((vec![], 0, false)),
        shapes: Mutex::new(Shapes::new()),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        over: AtomicBool::new(false),
    });
    let result: Arc<Mutex<Report>> = Arc::new(Mutex::new(Report { complete: true, ..Default::default() }));
    let total_viol = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for k in 0..cfg.threads {
        let mut rng = (cfg.seed + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ (k as u64 + 1).wrapping_mul(0xbf58476d1ce4e5b9);
        let shared = shared.clone();
        let result = result.clone();
        let total_viol = total_viol.clone();
        let cap = cfg.shape_cap;
        let (maxv, every, maxs, pv) = (cfg.max_violations, cfg.sample_every, cfg.max_samples, cfg.panics_are_violations);
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let base = 0u8;
                let mut ctx = Box::new(Ctx::new());
                ctx.stack_base = &base as *const u8 as usize;
                CTX.with(|c| *c.borrow_mut() = Some(ctx));
                let mut samples: Vec<Case> = vec![];
                loop {
                    // get work: a part of a shape somebody gave away, or another shape
                    let (work, mut place) = {
                        let mut q = shared.queue.lock().unwrap();
                        loop {
                            if q.2 {
                                break (None, None);
                            }
                            if let Some(w) = q.0.pop() {
                                q.1 += 1;
                                break (Some(w), None);
                            }
                            if let Some((w, p)) = shared.shapes.lock().unwrap().take(&mut rng) {
                                q.1 += 1;
                                break (Some(w), Some(p));
                            }
                            if q.1 == 0 {
                                q.2 = true;
                                shared.cv.notify_all();
                                break (None, None);
                            }
                            shared.hungry.fetch_add(1, AO::SeqCst);
                            q = shared.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                            shared.hungry.fetch_sub(1, AO::SeqCst);
                        }
                    };
                    let Some(w) = work else { break };
                    load(w);
                    // alternatives left inside the current shape (its leading choices)
                    let mut local: VecDeque<Work> = VecDeque::new();
                    let mut used = 0usize;
                    loop {
                        let first = place.take();
                        with(|c| {
                            c.sampling = first.is_some();
                            c.rng = rng | 1;
                        });
                        run_path(f, pv, every, maxs, &mut samples);
                        if shared.over.load(AO::SeqCst) {
                            return;
                        }
                        used += 1;
                        if with(|c| c.stats.paths >= every.max(1) * 8) {
                            let part = with(|c| std::mem::take(&mut c.stats));
                            result.lock().unwrap().stats.merge(&part);
                        }
                        let mut from = 0;
                        if let Some(p) = first {
                            random(&mut rng, 2);
                            let outer = with(|c| c.trace[..shape_len(&c.trace)].to_vec());
                            from = outer.len();
                            shared.shapes.lock().unwrap().put(p, &outer);
                            if shared.hungry.load(AO::SeqCst) > 0 {
                                shared.cv.notify_all();
                            }
                        }
                        open_alternatives(&mut local, from);
                        let v = with(|c| c.violations.len());
                        if v > 0 {
                            let vs: Vec<Case> = with(|c| std::mem::take(&mut c.violations));
                            let n = total_viol.fetch_add(vs.len(), AO::SeqCst) + vs.len();
                            let mut r = result.lock().unwrap();
                            r.violations.extend(vs);
                            if n >= maxv {
                                STOP.store(true, AO::SeqCst);
                            }
                        }
                        if Instant::now() > deadline {
                            STOP.store(true, AO::SeqCst);
                        }
                        if STOP.load(AO::SeqCst) {
                            result.lock().unwrap().complete = false;
                            let mut q = shared.queue.lock().unwrap();
                            q.0.clear();
                            q.2 = true;
                            shared.cv.notify_all();
                            break;
                        }
                        if shared.hungry.load(AO::SeqCst) > 0 && local.len() > 1 && !shared.shapes.lock().unwrap().any() {
                            let w = local.pop_front().unwrap();
                            let mut q = shared.queue.lock().unwrap();
                            q.0.push(w);
                            shared.cv.notify_one();
                        }
                        if let Some(w) = if cap == 0 || used < cap {
                            // few deviations from the first path first, then any
                            if local.is_empty() {
                                None
                            } else if cap > 0 && used * 2 > cap {
                                let k = random(&mut rng, local.len());
                                local.swap_remove_back(k)
                            } else if used < BREADTH {
                                local.pop_front()
                            } else {
                                local.pop_back()
                            }
                        } else {
                            None
                        } {
                            load(w);
                            continue;
                        }
                        used = 0;
                        let left = local.len() as u64;
                        local.clear();
                        with(|c| {
                            c.stats.shapes += 1;
                            if left > 0 {
                                c.stats.shapes_cut += 1;
                            }
                        });
                        // another shape, anywhere among those left
                        match shared.shapes.lock().unwrap().take(&mut rng) {
                            Some((w, p)) => {
                                load(w);
                                place = Some(p);
                            }
                            None => break,
                        }
                    }
                    let mut q = shared.queue.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 && q.0.is_empty() && !shared.shapes.lock().unwrap().any() {
                        q.2 = true;
                    }
                    shared.cv.notify_all();
                }
                let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
                let mut r = result.lock().unwrap();
                r.stats.merge(&ctx.stats);
                r.samples.extend(samples);
            })
            .unwrap();
        hs.push(h);
    }
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (d, late) = (done.clone(), deadline);
    let watch = std::thread::spawn(move || {
        while !d.load(AO::SeqCst) {
            std::thread::sleep(Duration::from_millis(50));
            let limit = if Instant::now() > late { 300 } else { SOLVER_TIMEOUT as u64 + 500 };
            crate::z3::interrupt_long(limit);
        }
    });
    for h in hs {
        while !h.is_finished() && Instant::now() < deadline + GRACE {
            std::thread::sleep(Duration::from_millis(2));
        }
        if !h.is_finished() {
            shared.over.store(true, AO::SeqCst);
            let mut r = result.lock().unwrap();
            r.complete = false;
            *r.stats.cut.entry("left behind: a path went on beyond the time given".into()).or_default() += 1;
        } else if h.join().is_err() {
            let mut r = result.lock().unwrap();
            r.complete = false;
            *r.stats.cut.entry("engine: worker died".into()).or_default() += 1;
        }
    }
    done.store(true, AO::SeqCst);
    let _ = watch.join();
    let _ = panic::take_hook();
    let mut r = result.lock().unwrap().clone();
    r.wall = start.elapsed().as_secs_f64();
    r
}

fn run_path(f: fn(), panics: bool, every: u64, maxs: usize, samples: &mut Vec<Case>) {
    with(|c| {
        c.fresh_path();
        c.active = true;
    });
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    match r {
        Ok(()) => {
            let take = with(|c| {
                c.stats.paths += 1;
                c.stats.max_depth = c.stats.max_depth.max(c.trace.len() as u64);
                if every > 0 && (c.stats.paths % every == 1 || every == 1) && samples.len() < maxs && c.model_ok {
                    c.peek = true;
                    Some((c.input_strings(), std::mem::take(&mut c.observed)))
                } else {
                    None
                }
            });
            if let Some((inputs, obs)) = take {
                let observed: Option<Vec<String>> =
                    panic::catch_unwind(panic::AssertUnwindSafe(|| obs.into_iter().map(|f| f()).collect())).ok();
                if let Some(observed) = observed {
                    samples.push(Case { label: "sample".into(), detail: String::new(), inputs, observed });
                }
            }
            with(|c| c.active = false);
        }
        Err(p) => {
            with(|c| c.active = false);
            if let Some(a) = p.downcast_ref::<Abort>() {
                let why = a.0.clone();
                with(|c| {
                    if why.starts_with("runaway") {
                        c.violation_here("terminates", why.clone());
                    } else if why == "violation" {
                        c.stats.paths += 1;
                    } else if why != "infeasible" {
                        *c.stats.cut.entry(why).or_default() += 1;
                    }
                });
            } else {
                let msg = LAST_PANIC.with(|l| l.borrow().clone());
                with(|c| {
                    if msg.starts_with("symrt:") || msg.contains("symdriver") || !panics {
                        *c.stats.cut.entry(msg.clone()).or_default() += 1;
                    } else {
                        c.violation_here("no-panic", msg.clone());
                    }
                });
            }
        }
    }
}

/// leading choices, assumptions between them included: they fix the shape of the inputs
fn shape_len(t: &[Entry]) -> usize {
    t.iter().take_while(|e| matches!(e, Entry::Choice { .. } | Entry::Branch { open: None, .. })).count()
}
/// paths explored breadth first in each shape: few deviations from the first path come first
const BREADTH: usize = 4000;

/// starts from the given prefix
fn load(w: Work) {
    with(|c| {
        c.z.pop(c.z.level);
        c.solved = 0;
        c.model_ok = w.model.is_some();
        c.model = w.model.unwrap_or_default();
        c.trace = w.trace;
        for e in c.trace.iter_mut() {
            match e {
                Entry::Branch { open, .. } => *open = None,
                Entry::Choice { val, end, .. } => *end = *val + 1,
                _ => {}
            }
        }
        // base level of this worker: a level of its own for initial facts
        c.z.push();
    });
}
/// moves the unexplored alternatives of the last path to the queue, shallow ones first
fn open_alternatives(q: &mut VecDeque<Work>, from: usize) {
    with(|c| {
        for i in from..c.trace.len() {
            match c.trace[i].clone() {
                Entry::Branch { val, open: Some(m) } => {
                    if let Entry::Branch { open, .. } = &mut c.trace[i] {
                        *open = None;
                    }
                    let mut t = c.trace[..i].to_vec();
                    t.push(Entry::Branch { val: !val, open: None });
                    q.push_back(Work { trace: t, model: m });
                }
                Entry::Choice { val, end, atoms } if val + 1 < end => {
                    if let Entry::Choice { end: e, .. } = &mut c.trace[i] {
                        *e = val + 1;
                    }
                    let mut m = c.model.clone();
                    m.retain(|k, _| *k < atoms);
                    for v in val + 1..end {
                        let mut t = c.trace[..i].to_vec();
                        t.push(Entry::Choice { val: v, end: v + 1, atoms });
                        let model = if c.model_ok { Some(m.clone()) } else { None };
                        q.push_back(Work { trace: t, model });
                    }
                }
                _ => {}
            }
        }
    })
}

fn random(state: &mut u64, n: usize) -> usize {
    *state ^= *state << 13;
    *state ^= *state >> 7;
    *state ^= *state << 17;
    ((*state >> 11) % n as u64) as usize
}
/// the shapes seen and not seen yet: a tree of the leading choices, drawn from at random without repetition
struct Shapes {
    nodes: Vec<Node>,
}
struct Node {
    /// what comes before the choice
    prefix: Vec<Entry>,
    atoms: u32,
    parent: (usize, usize),
    kids: Vec<Kid>,
    /// alternatives with something left to hand out
    avail: usize,
}
#[derive(Clone, Copy)]
enum Kid {
    Fresh,
    Gone,
    Node(usize),
}
type Place = (usize, usize);
impl Shapes {
    /// the root has one alternative, the empty prefix
    fn new() -> Shapes {
        Shapes { nodes: vec![Node { prefix: vec![], atoms: 0, parent: (0, 0), kids: vec![Kid::Fresh], avail: 1 }] }
    }
    fn any(&self) -> bool {
        self.nodes[0].avail > 0
    }
    fn less(&mut self, mut n: usize) {
        loop {
            self.nodes[n].avail -= 1;
            if self.nodes[n].avail > 0 || n == 0 {
                return;
            }
            n = self.nodes[n].parent.0;
        }
    }
    fn more(&mut self, mut n: usize) {
        loop {
            self.nodes[n].avail += 1;
            if self.nodes[n].avail > 1 || n == 0 {
                return;
            }
            n = self.nodes[n].parent.0;
        }
    }
    fn take(&mut self, rng: &mut u64) -> Option<(Work, Place)> {
        if !self.any() {
            return None;
        }
        let mut n = 0;
        loop {
            let node = &self.nodes[n];
            let mut k = random(rng, node.avail);
            let at = node
                .kids
                .iter()
                .position(|kid| {
                    let open = match kid {
                        Kid::Fresh => true,
                        Kid::Gone => false,
                        Kid::Node(m) => self.nodes[*m].avail > 0,
                    };
                    if open && k == 0 {
                        return true;
                    }
                    k -= open as usize;
                    false
                })
                .unwrap();
            if let Kid::Node(m) = node.kids[at] {
                n = m;
                continue;
            }
            let mut t = node.prefix.clone();
            if n > 0 {
                t.push(Entry::Choice { val: at, end: at + 1, atoms: node.atoms });
            }
            self.nodes[n].kids[at] = Kid::Gone;
            self.less(n);
            let model = if t.iter().all(|e| matches!(e, Entry::Choice { .. })) { Some(HashMap::new()) } else { None };
            return Some((Work { trace: t, model }, (n, at)));
        }
    }
    /// the leading choices of the first path from there
    fn put(&mut self, place: Place, outer: &[Entry]) {
        let (mut n, mut k) = place;
        let start = if n == 0 { 0 } else { self.nodes[n].prefix.len() + 1 };
        for i in start..outer.len() {
            if let Entry::Choice { val, end, atoms } = outer[i] {
                let m = self.nodes.len();
                let mut kids = vec![Kid::Fresh; end];
                kids[val] = Kid::Gone;
                self.nodes.push(Node { prefix: outer[..i].to_vec(), atoms, parent: (n, k), kids, avail: end - 1 });
                self.nodes[n].kids[k] = Kid::Node(m);
                if end > 1 {
                    self.more(n);
                }
                (n, k) = (m, val);
            }
        }
    }
}

pub fn f64_to_q(v: f64) -> Option<Q> {
    Q::from_float(v)
}
pub fn q_to_f64(q: &Q) -> f64 {
    let (n, d) = (q.numer(), q.denom());
    match (n.to_f64(), d.to_f64()) {
        (Some(a), Some(b)) if a.is_finite() && b.is_finite() => a / b,
        _ => {
            let s = n.bits().max(d.bits()).saturating_sub(900);
            let (a, b) = (n >> s, d >> s);
            a.to_f64().unwrap_or(f64::NAN) / b.to_f64().unwrap_or(f64::NAN)
        }
    }
}
pub fn is_int_term(c: &Ctx, p: &Poly) -> bool {
    p.int_coefs() && p.atoms().iter().all(|a| c.atoms[*a as usize].int)
}
pub fn new_trunc(c: &mut Ctx, p: &Poly) -> Poly {
    let (lo, hi) = c.interval(p);
    let a = c.new_atom(true, lo.map(|x| x.trunc()), hi.map(|x| x.trunc()), Def::Trunc(p.clone()));
    let k = Poly::atom(a);
    if c.decide(&Cond::lt(p, &Poly::zero())) {
        c.fact(&Cond::and(vec![Cond::lt(&k.sub(&Poly::one()), p), Cond::le(p, &k)]));
    } else {
        c.fact(&Cond::and(vec![Cond::le(&k, p), Cond::lt(p, &k.add(&Poly::one()))]));
    }
    k
}
