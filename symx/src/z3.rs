//! Z3 (C API) back end: translation of expressions and satisfiability queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Ctx = *mut c_void; type Ast = *mut c_void; type Sort = *mut c_void; type Solver = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast; fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast; fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver); fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void); fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, bv: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, t: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast; fn Z3_mk_fpa_rtp(c: Ctx) -> Ast; fn Z3_mk_fpa_rtn(c: Ctx) -> Ast; fn Z3_mk_fpa_rtz(c: Ctx) -> Ast; fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast; fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast; fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast; fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast; fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_func_decl(c: Ctx, s: *mut c_void, n: c_uint, d: *const Sort, r: Sort) -> *mut c_void;
    fn Z3_mk_app(c: Ctx, f: *mut c_void, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}
extern "C" fn on_err(_c: Ctx, _e: c_int) {}

pub enum Ans { Sat(Vec<(u32, u128)>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct SolverStats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub secs: f64, pub max_secs: f64 }

pub struct Z3 {
    c: Ctx, bvs: Solver, gens: Solver,
    bvm: FxMap<Ex, usize>, bm: FxMap<Ex, usize>,
    vars: FxMap<u32, usize>, // var index -> ast
    nast: usize,
    pub st: SolverStats,
    pub timeout_ms: u32,
}

fn sym(c: Ctx, s: &str) -> *mut c_void { let s = CString::new(s).unwrap(); unsafe { Z3_mk_string_symbol(c, s.as_ptr()) } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { c: std::ptr::null_mut(), bvs: std::ptr::null_mut(), gens: std::ptr::null_mut(), bvm: Default::default(), bm: Default::default(), vars: Default::default(), nast: 0, st: Default::default(), timeout_ms };
        z.init();
        z
    }
    fn init(&mut self) { unsafe {
        let cfg = Z3_mk_config();
        let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
        Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
        self.c = Z3_mk_context(cfg);
        Z3_set_error_handler(self.c, Some(on_err));
        self.bvs = Z3_mk_solver_for_logic(self.c, sym(self.c, "QF_BV"));
        Z3_solver_inc_ref(self.c, self.bvs);
        self.gens = Z3_mk_solver(self.c);
        Z3_solver_inc_ref(self.c, self.gens);
        for s in [self.bvs, self.gens] {
            let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, sym(self.c, "timeout"), self.timeout_ms);
            Z3_solver_set_params(self.c, s, p);
        }
        self.bvm.clear(); self.bm.clear(); self.vars.clear(); self.nast = 0;
    } }
    fn reset_ctx(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.bvs); Z3_solver_dec_ref(self.c, self.gens); Z3_del_context(self.c); } self.init(); }
    fn num(&mut self, w: u16, v: u128) -> Ast { unsafe {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if v >> 64 == 0 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    } }
    fn boolean(&mut self, p: &Pool, e: Ex) -> Ast {
        if let Some(&a) = self.bm.get(&e) { return a as Ast; }
        let n = p.n(e);
        debug_assert_eq!(n.w, 1);
        let r = unsafe { match n.op {
            Op::Const => if p.cv(e) == Some(1) { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) },
            Op::And => { let v = [self.boolean(p, n.a), self.boolean(p, n.b)]; Z3_mk_and(self.c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.boolean(p, n.a), self.boolean(p, n.b)]; Z3_mk_or(self.c, 2, v.as_ptr()) }
            Op::Xor => { if p.cv(n.b) == Some(1) { let a = self.boolean(p, n.a); Z3_mk_not(self.c, a) } else { let (a, b) = (self.boolean(p, n.a), self.boolean(p, n.b)); Z3_mk_xor(self.c, a, b) } }
            Op::Ite => { let (a, b, d) = (self.boolean(p, n.a), self.boolean(p, n.b), self.boolean(p, n.c)); Z3_mk_ite(self.c, a, b, d) }
            Op::Eq if p.n(n.a).op == Op::SDiv && p.cv(n.b) == Some(0) && matches!(p.cv(p.n(n.a).b), Some(d) if d > 0 && d < 1u128 << (p.w(n.a) - 2)) => {
                // x / d == 0  <=>  -d < x < d
                let d = p.cv(p.n(n.a).b).unwrap(); let w = p.w(n.a);
                let x = self.bv(p, p.n(n.a).a); let k = self.num(w, d - 1); let l = self.num(w, 2 * d - 1);
                Z3_mk_bvult(self.c, Z3_mk_bvadd(self.c, x, k), l)
            }
            Op::Eq => { if p.w(n.a) == 1 { let (a, b) = (self.boolean(p, n.a), self.boolean(p, n.b)); Z3_mk_eq(self.c, a, b) } else { let (a, b) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_eq(self.c, a, b) } }
            Op::Ult => { let (a, b) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_bvult(self.c, a, b) }
            Op::Ule => { let (a, b) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_bvule(self.c, a, b) }
            Op::Slt => { let (a, b) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_bvslt(self.c, a, b) }
            Op::Sle => { let (a, b) = (self.bv(p, n.a), self.bv(p, n.b)); Z3_mk_bvsle(self.c, a, b) }
            Op::FEq => { let (a, b) = (self.fp(p, n.a), self.fp(p, n.b)); Z3_mk_fpa_eq(self.c, a, b) }
            Op::FLt => { let (a, b) = (self.fp(p, n.a), self.fp(p, n.b)); Z3_mk_fpa_lt(self.c, a, b) }
            Op::FLe => { let (a, b) = (self.fp(p, n.a), self.fp(p, n.b)); Z3_mk_fpa_leq(self.c, a, b) }
            Op::FIsNan => { let a = self.fp(p, n.a); Z3_mk_fpa_is_nan(self.c, a) }
            _ => { let a = self.bv(p, e); let one = self.num(1, 1); Z3_mk_eq(self.c, a, one) }
        } };
        self.nast += 1;
        self.bm.insert(e, r as usize);
        r
    }
    fn fp(&mut self, p: &Pool, e: Ex) -> Ast {
        let w = p.w(e);
        let a = self.bv(p, e);
        unsafe { let s = if w == 64 { Z3_mk_fpa_sort(self.c, 11, 53) } else { Z3_mk_fpa_sort(self.c, 8, 24) }; Z3_mk_fpa_to_fp_bv(self.c, a, s) }
    }
    fn bv(&mut self, p: &Pool, e: Ex) -> Ast {
        if let Some(&a) = self.bvm.get(&e) { return a as Ast; }
        let n = p.n(e);
        let c = self.c;
        macro_rules! b2 { ($f:ident) => {{ let x = self.bv(p, n.a); let y = self.bv(p, n.b); $f(c, x, y) }} }
        let r = unsafe { match n.op {
            Op::Const => { let v = p.cv(e).unwrap(); self.num(n.w, v) }
            Op::Var => { let s = Z3_mk_bv_sort(c, n.w as c_uint); let a = Z3_mk_const(c, sym(c, &format!("v{}", n.a)), s); self.vars.insert(n.a, a as usize); a }
            Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
            Op::SDiv | Op::SRem if matches!(p.cv(n.b), Some(d) if d.is_power_of_two() && d > 1 && d < 1u128 << (n.w - 1)) => {
                let k = p.cv(n.b).unwrap().trailing_zeros(); let w = n.w as u32;
                let x = self.bv(p, n.a);
                let s = Z3_mk_zero_ext(c, w - k, Z3_mk_sign_ext(c, k - 1, Z3_mk_extract(c, w - 1, w - 1, x)));
                let t = Z3_mk_bvadd(c, x, s);
                let q = Z3_mk_sign_ext(c, k, Z3_mk_extract(c, w - 1, k, t));
                if n.op == Op::SDiv { q } else { let z = self.num(k as u16, 0); Z3_mk_bvsub(c, x, Z3_mk_concat(c, Z3_mk_extract(c, w - 1, k, t), z)) }
            }
            Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor),
            Op::Xor => { if p.cv(n.b) == Some(mask(n.w)) { let a = self.bv(p, n.a); Z3_mk_bvnot(c, a) } else { b2!(Z3_mk_bvxor) } }
            Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
            Op::Concat => b2!(Z3_mk_concat),
            Op::Extract => { let a = self.bv(p, n.a); Z3_mk_extract(c, n.c + n.w as u32 - 1, n.c, a) }
            Op::ZExt => { let a = self.bv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as u32, a) }
            Op::SExt => { let a = self.bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, a) }
            Op::Ite => { let a = self.boolean(p, n.a); let x = self.bv(p, n.b); let y = self.bv(p, n.c); Z3_mk_ite(c, a, x, y) }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => { let a = self.boolean(p, e); let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(c, a, o, z) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (x, y) = (self.fp(p, n.a), self.fp(p, n.b)); let r = Z3_mk_fpa_rne(c);
                let t = match n.op { Op::FAdd => Z3_mk_fpa_add(c, r, x, y), Op::FSub => Z3_mk_fpa_sub(c, r, x, y), Op::FMul => Z3_mk_fpa_mul(c, r, x, y), _ => Z3_mk_fpa_div(c, r, x, y) };
                Z3_mk_fpa_to_ieee_bv(c, t)
            }
            Op::FSqrt => { let x = self.fp(p, n.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x)) }
            Op::FRound => { let x = self.fp(p, n.a); let r = match n.c { 0 => Z3_mk_fpa_rne(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtn(c), 3 => Z3_mk_fpa_rtz(c), _ => Z3_mk_fpa_rna(c) }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, r, x)) }
            Op::FToF => { let x = self.fp(p, n.a); let s = if n.w == 64 { Z3_mk_fpa_sort(c, 11, 53) } else { Z3_mk_fpa_sort(c, 8, 24) }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s)) }
            Op::FToSI => { let x = self.fp(p, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, n.w as u32) }
            Op::FToUI => { let x = self.fp(p, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, n.w as u32) }
            Op::SIToF | Op::UIToF => { let x = self.bv(p, n.a); let s = if n.w == 64 { Z3_mk_fpa_sort(c, 11, 53) } else { Z3_mk_fpa_sort(c, 8, 24) }; let r = Z3_mk_fpa_rne(c);
                Z3_mk_fpa_to_ieee_bv(c, if n.op == Op::SIToF { Z3_mk_fpa_to_fp_signed(c, r, x, s) } else { Z3_mk_fpa_to_fp_unsigned(c, r, x, s) }) }
            Op::FRem => { // uninterpreted
                let x = self.bv(p, n.a); let y = self.bv(p, n.b); let s = Z3_mk_bv_sort(c, n.w as u32); let d = [s, s];
                let f = Z3_mk_func_decl(c, sym(c, &format!("frem{}", n.w)), 2, d.as_ptr(), s); let a = [x, y]; Z3_mk_app(c, f, 2, a.as_ptr()) }
            Op::Uf => {
                let x = self.bv(p, n.a); let mut args = vec![x]; let mut ds = vec![Z3_mk_bv_sort(c, p.w(n.a) as u32)];
                if n.b != NONE { args.push(self.bv(p, n.b)); ds.push(Z3_mk_bv_sort(c, p.w(n.b) as u32)); }
                let r = Z3_mk_bv_sort(c, n.w as u32);
                let f = Z3_mk_func_decl(c, sym(c, &format!("uf_{}_{}_{}", p.ufs[n.c as usize], n.w, args.len())), args.len() as u32, ds.as_ptr(), r);
                Z3_mk_app(c, f, args.len() as u32, args.as_ptr())
            }
        } };
        self.nast += 1;
        self.bvm.insert(e, r as usize);
        r
    }
    pub fn check(&mut self, p: &Pool, cs: &[Ex]) -> Result<Ans, String> {
        if self.nast > 3_000_000 { self.reset_ctx(); }
        let general = cs.iter().any(|e| p.has_fp(*e));
        let t0 = Instant::now();
        unsafe {
            let s = if general { self.gens } else { self.bvs };
            Z3_solver_reset(self.c, s);
            for e in cs { let a = self.boolean(p, *e); Z3_solver_assert(self.c, s, a); }
            let r = Z3_solver_check(self.c, s);
            let ec = Z3_get_error_code(self.c);
            if ec != 0 { let m = CStr::from_ptr(Z3_get_error_msg(self.c, ec)).to_string_lossy().into_owned(); return Err(format!("z3 error {}: {}", ec, m)); }
            let dt = t0.elapsed().as_secs_f64();
            self.st.queries += 1; self.st.secs += dt; if dt > self.st.max_secs { self.st.max_secs = dt; }
            if let Ok(_) = std::env::var("SYMX_SLOW") { if dt > 2.0 { eprintln!("slow query {:.2}s r={} n={}", dt, r, cs.len()); for e in cs { eprintln!("   {}", p.show(*e)); } } }
            match r {
                -1 => { self.st.unsat += 1; Ok(Ans::Unsat) }
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vs: Vec<u32> = cs.iter().flat_map(|e| p.vars_of(*e).iter().copied().collect::<Vec<_>>()).collect();
                    vs.sort_unstable(); vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let a = match self.vars.get(&v) { Some(a) => *a as Ast, None => continue };
                        let mut o: Ast = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, a, true, &mut o) { return Err("model eval".into()); }
                        let mut x = 0u64;
                        let v128 = if Z3_get_numeral_uint64(self.c, o, &mut x) { x as u128 } else { CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse().map_err(|_| "model numeral".to_string())? };
                        out.push((v, v128));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ok(Ans::Sat(out))
                }
                _ => { self.st.unknown += 1; Ok(Ans::Unknown) }
            }
        }
    }
}
