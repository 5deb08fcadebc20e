//! Case runner: every case is announced before it starts, so that a crash or a hang of the code
//! under test can be attributed, and everything a monitor observed is reported on stdout.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub struct Ctx {
    pub seed: u64,
    pub prop: String,
    pub thorough: bool,
    pub case: u64,
    pub rng: Rng,
    pub counters: BTreeMap<String, u64>,
    /// largest value seen for named quantities (calibration of tolerances, reported as evidence)
    pub maxima: BTreeMap<String, f64>,
    violations: Vec<String>,
    case_sig: u64,
    case_nontrivial: bool,
    case_desc: String,
    case_evals: u64,
    runs: u64,
    gave_up: Option<u64>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Ctx {
        Ctx {
            seed,
            prop: prop.into(),
            thorough,
            case: 0,
            rng: Rng::new(seed),
            counters: Default::default(),
            maxima: Default::default(),
            violations: vec![],
            case_sig: 0,
            case_nontrivial: false,
            case_desc: String::new(),
            case_evals: 0,
            runs: 0,
            gave_up: None,
        }
    }
    /// Report a violation of the property.
    pub fn viol(&mut self, msg: impl AsRef<str>) {
        if self.violations.len() < 5 {
            self.violations.push(msg.as_ref().replace('\n', " "));
        }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.case_evals += 1;
        if !ok {
            let m = msg();
            self.viol(m);
        }
        ok
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.into()).or_default() += n;
    }
    pub fn max(&mut self, key: &str, v: f64) {
        let e = self.maxima.entry(key.into()).or_insert(f64::NEG_INFINITY);
        if v > *e || v.is_nan() {
            *e = v;
        }
    }
    /// Describe the case; it is shown as a sample and in replays.
    pub fn desc(&mut self, d: String) {
        self.case_desc = d;
    }
    /// The case exercised the property for real; `sig` identifies distinct ones.
    pub fn nontrivial(&mut self, sig: &[u8]) {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in sig {
            h ^= *b as u64;
            h = h.wrapping_mul(0x1000_0000_01b3);
        }
        self.case_sig = h;
        self.case_nontrivial = true;
    }
    /// Run code under test that is allowed to panic.
    pub fn attempt<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            format!("{m} at {l}")
        })
    }
    /// Run code under test that must not panic.
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match self.attempt(f) {
            Ok(x) => Some(x),
            Err(e) => {
                if !self.is_known(&e) {
                    self.viol(format!("{what} panicked: {e}"));
                }
                None
            }
        }
    }
    /// The linear program solver that `compute_palette` uses panics for about one in 50000 images
    /// of colours with symmetries. That's a known finding of C11 (see known-findings.txt), where
    /// it's reported; the others go on without the image. It's an alarm if it becomes common.
    fn is_known(&mut self, panic: &str) -> bool {
        if !(panic.contains("SingularMatrix") && panic.contains("minilp-")) {
            return false;
        }
        if self.gave_up != Some(self.case) {
            self.gave_up = Some(self.case);
            self.count("solver_gave_up", 1);
        }
        let n = self.counters["solver_gave_up"];
        if n > 4 + self.runs / 1000 {
            return false;
        }
        if self.prop == "C11" {
            self.viol("the linear program solver panicked: SingularMatrix in minilp, called by compute_palette");
        }
        true
    }
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub struct Plan {
    pub start: u64,
    pub stride: u64,
    pub end: u64,
    pub budget_s: f64,
}

/// Run the cases of a plan. Line protocol on stdout:
///   B <case>                     about to start
///   D <case> <evals> <nontrivial 0/1> <signature> <description>
///   V <case> <message>           the property is violated
///   H <case> <message>           the harness itself failed
///   C <name> <count> / M <name> <max>   totals
pub fn run(ctx: &mut Ctx, plan: &Plan, f: &mut dyn FnMut(&mut Ctx)) {
    let t0 = std::time::Instant::now();
    let out = std::io::stdout();
    let mut case = plan.start;
    let verbose = plan.end - plan.start == 1;
    while case < plan.end {
        if t0.elapsed().as_secs_f64() > plan.budget_s {
            break;
        }
        ctx.case = case;
        ctx.runs += 1;
        ctx.rng = Rng::for_case(ctx.seed, &ctx.prop, case);
        ctx.violations.clear();
        ctx.case_nontrivial = false;
        ctx.case_desc.clear();
        ctx.case_sig = 0;
        ctx.case_evals = 0;
        {
            let mut o = out.lock();
            writeln!(o, "B {case}").ok();
            o.flush().ok();
        }
        let t1 = std::time::Instant::now();
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(ctx)));
        let dt = t1.elapsed().as_secs_f64();
        ctx.max("slowest_case_s", dt);
        let mut o = out.lock();
        if r.is_err() {
            let (m, l) = take_panic();
            // A panic outside of `must`/`attempt` is only blamed on the code under test when it
            // was raised there.
            if l.starts_with("src/") {
                writeln!(o, "H {case} harness panicked: {m} at {l} [{}]", ctx.case_desc).ok();
            } else if !ctx.is_known(&format!("{m} at {l}")) {
                ctx.violations.push(format!("unexpected panic: {m} at {l}"));
            }
        }
        for v in &ctx.violations {
            writeln!(o, "V {case} {} [{}]", v, ctx.case_desc).ok();
        }
        if ctx.case_nontrivial || verbose || ctx.case_evals > 0 {
            writeln!(
                o, "D {case} {} {} {:016x} {}", ctx.case_evals, ctx.case_nontrivial as u8,
                ctx.case_sig, ctx.case_desc
            ).ok();
        } else {
            writeln!(o, "D {case} 0 0 - {}", ctx.case_desc).ok();
        }
        o.flush().ok();
        case += plan.stride;
    }
    let mut o = out.lock();
    for (k, v) in &ctx.counters {
        writeln!(o, "C {k} {v}").ok();
    }
    for (k, v) in &ctx.maxima {
        writeln!(o, "M {k} {v:e}").ok();
    }
    writeln!(o, "END").ok();
    o.flush().ok();
}
