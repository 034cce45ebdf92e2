//! rustc driver that rewrites MIR so that every primitive operation on `f64`, `isize` and `i64`
//! goes through the symbolic runtime (crate `symrt`).  All other code is compiled unchanged, so
//! what runs is the compiler's own MIR of the code under test.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_parse;
extern crate rustc_ast;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::{Span, DUMMY_SP};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

static ORIG_LOCAL: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Body<'tcx>> =
    OnceLock::new();
static ORIG_EXTERN: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, DefId) -> &'tcx Body<'tcx>> =
    OnceLock::new();

thread_local! {
    static HOOKS: RefCell<Option<HashMap<String, DefId>>> = RefCell::new(None);
}

/// Crates whose bodies are part of the runtime itself and are never rewritten.
const RUNTIME: &[&str] = &[
    "symrt", "num", "symstd", "num_bigint", "num_integer", "num_traits", "num_rational",
    "num_iter", "num_complex",
];

fn hook(tcx: TyCtxt<'_>, name: &str) -> Option<DefId> {
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            let mut map = HashMap::new();
            for &c in tcx.crates(()) {
                if tcx.crate_name(c).as_str() == "symrt" {
                    for child in tcx.module_children(c.as_def_id()) {
                        if let Some(d) = child.res.opt_def_id() {
                            if child.ident.name.as_str() == "hooks" {
                                for f in tcx.module_children(d) {
                                    if let Some(fd) = f.res.opt_def_id() {
                                        if tcx.def_kind(fd) == DefKind::Fn {
                                            map.insert(f.ident.name.to_string(), fd);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            *h = Some(map);
        }
        let m = h.as_ref().unwrap();
        if m.is_empty() {
            return None;
        }
        match m.get(name) {
            Some(d) => Some(*d),
            None => panic!("symdriver: no hook named {name}"),
        }
    })
}

fn wants(tcx: TyCtxt<'_>, did: DefId) -> bool {
    let cname = tcx.crate_name(did.krate);
    if RUNTIME.contains(&cname.as_str()) {
        return false;
    }
    if RUNTIME.contains(&tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()) {
        return false;
    }
    // formatting and parsing of primitive numbers stay native
    if matches!(cname.as_str(), "core" | "std" | "alloc") {
        let p = tcx.def_path_str(did);
        if p.starts_with("core::fmt")
            || p.starts_with("std::fmt")
            || p.contains("intrinsics")
            || p.starts_with("core::time")
            || p.starts_with("std::time")
            || p.starts_with("std::sys")
            || p.starts_with("std::io")
        {
            return false;
        }
    }
    hook(tcx, "f64_bin").is_some()
}

#[derive(Clone, Copy, PartialEq)]
enum Prim {
    F,
    I, // isize
    L, // i64
}

fn prim<'tcx>(t: Ty<'tcx>) -> Option<Prim> {
    match t.kind() {
        ty::Float(ty::FloatTy::F64) => Some(Prim::F),
        ty::Int(ty::IntTy::Isize) => Some(Prim::I),
        ty::Int(ty::IntTy::I64) => Some(Prim::L),
        _ => None,
    }
}
fn pre(p: Prim) -> &'static str {
    match p {
        Prim::F => "f64",
        Prim::I => "isize",
        Prim::L => "i64",
    }
}

struct Rw<'tcx> {
    tcx: TyCtxt<'tcx>,
    locals: rustc_index::IndexVec<Local, LocalDecl<'tcx>>,
    discr: Vec<Local>,
}

fn as_copy<'tcx>(o: &Operand<'tcx>) -> Operand<'tcx> {
    match o {
        Operand::Move(p) => Operand::Copy(*p),
        o => o.clone(),
    }
}

enum Step<'tcx> {
    Stmt(Statement<'tcx>),
    Call(String, Vec<Operand<'tcx>>, Place<'tcx>),
}

impl<'tcx> Rw<'tcx> {
    fn new_local(&mut self, ty: Ty<'tcx>, span: Span) -> Place<'tcx> {
        Place::from(self.locals.push(LocalDecl::new(ty, span)))
    }
    fn opty(&self, o: &Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&self.locals, self.tcx)
    }
    fn cu8(&self, v: u8) -> Operand<'tcx> {
        Operand::const_from_scalar(self.tcx, self.tcx.types.u8, Scalar::from_u8(v), DUMMY_SP)
    }
    /// replaces an operand by its concretised value
    fn conc(&mut self, o: &Operand<'tcx>, out: &mut Vec<Step<'tcx>>, si: SourceInfo) -> Operand<'tcx> {
        let t = self.opty(o);
        match prim(t) {
            Some(p) if !matches!(o, Operand::Constant(_)) => {
                let tmp = self.new_local(t, si.span);
                out.push(Step::Call(format!("{}_conc", pre(p)), vec![as_copy(o)], tmp));
                Operand::Copy(tmp)
            }
            _ => o.clone(),
        }
    }

    /// as `conc`, and also through a shared reference
    fn conc_any(&mut self, o: &Operand<'tcx>, out: &mut Vec<Step<'tcx>>, si: SourceInfo) -> Operand<'tcx> {
        let t = self.opty(o);
        if let ty::Ref(_, inner, m) = t.kind() {
            if let (Some(p), false) = (prim(*inner), m.is_mut()) {
                if !matches!(o, Operand::Constant(_)) {
                    let tmp = self.new_local(t, si.span);
                    out.push(Step::Call(format!("{}_conc_ref", pre(p)), vec![as_copy(o)], tmp));
                    return Operand::Copy(tmp);
                }
            }
            return o.clone();
        }
        self.conc(o, out, si)
    }

    fn stmt(&mut self, s: &Statement<'tcx>, out: &mut Vec<Step<'tcx>>) {
        let si = s.source_info;
        if let StatementKind::Assign(b) = &s.kind {
            let (place, rv) = (&b.0, &b.1);
            match rv {
                Rvalue::Discriminant(_) => {
                    if let Some(l) = place.as_local() {
                        self.discr.push(l);
                    }
                }
                Rvalue::BinaryOp(op, ab) => {
                    let ta = self.opty(&ab.0);
                    if let Some(p) = prim(ta) {
                        let both_const = matches!(ab.0, Operand::Constant(_))
                            && matches!(ab.1, Operand::Constant(_));
                        let is_discr = |o: &Operand<'tcx>| match o {
                            Operand::Copy(pl) | Operand::Move(pl) => {
                                pl.as_local().map_or(false, |l| self.discr.contains(&l))
                            }
                            _ => false,
                        };
                        if both_const || is_discr(&ab.0) || is_discr(&ab.1) {
                            out.push(Step::Stmt(s.clone()));
                            return;
                        }
                        let (name, code) = match op {
                            BinOp::Add | BinOp::AddUnchecked => ("bin", 0),
                            BinOp::Sub | BinOp::SubUnchecked => ("bin", 1),
                            BinOp::Mul | BinOp::MulUnchecked => ("bin", 2),
                            BinOp::Div => ("bin", 3),
                            BinOp::Rem => ("bin", 4),
                            BinOp::AddWithOverflow => ("ovf", 0),
                            BinOp::SubWithOverflow => ("ovf", 1),
                            BinOp::MulWithOverflow => ("ovf", 2),
                            BinOp::Eq => ("cmp", 0),
                            BinOp::Ne => ("cmp", 1),
                            BinOp::Lt => ("cmp", 2),
                            BinOp::Le => ("cmp", 3),
                            BinOp::Gt => ("cmp", 4),
                            BinOp::Ge => ("cmp", 5),
                            BinOp::Cmp => ("ord", 0),
                            _ => ("", 0),
                        };
                        if name.is_empty() {
                            let a = self.conc(&ab.0, out, si);
                            let b2 = self.conc(&ab.1, out, si);
                            out.push(Step::Stmt(Statement::new(
                                si,
                                StatementKind::Assign(Box::new((
                                    *place,
                                    Rvalue::BinaryOp(*op, Box::new((a, b2))),
                                ))),
                            )));
                        } else {
                            out.push(Step::Call(
                                format!("{}_{}", pre(p), name),
                                vec![self.cu8(code), as_copy(&ab.0), as_copy(&ab.1)],
                                *place,
                            ));
                        }
                        return;
                    }
                    // shifts of other types by a symbolic amount
                    let tb = self.opty(&ab.1);
                    if prim(tb).is_some() && !matches!(op, BinOp::Offset) {
                        let b2 = self.conc(&ab.1, out, si);
                        out.push(Step::Stmt(Statement::new(
                            si,
                            StatementKind::Assign(Box::new((
                                *place,
                                Rvalue::BinaryOp(*op, Box::new((ab.0.clone(), b2))),
                            ))),
                        )));
                        return;
                    }
                    if matches!(op, BinOp::Offset) && prim(tb).is_some() {
                        let b2 = self.conc(&ab.1, out, si);
                        out.push(Step::Stmt(Statement::new(
                            si,
                            StatementKind::Assign(Box::new((
                                *place,
                                Rvalue::BinaryOp(*op, Box::new((ab.0.clone(), b2))),
                            ))),
                        )));
                        return;
                    }
                }
                Rvalue::UnaryOp(op, a) => {
                    if let Some(p) = prim(self.opty(a)) {
                        if !matches!(a, Operand::Constant(_)) {
                            match op {
                                UnOp::Neg => {
                                    out.push(Step::Call(
                                        format!("{}_neg", pre(p)),
                                        vec![as_copy(a)],
                                        *place,
                                    ));
                                    return;
                                }
                                _ => {
                                    let a2 = self.conc(a, out, si);
                                    out.push(Step::Stmt(Statement::new(
                                        si,
                                        StatementKind::Assign(Box::new((
                                            *place,
                                            Rvalue::UnaryOp(*op, a2),
                                        ))),
                                    )));
                                    return;
                                }
                            }
                        }
                    }
                }
                Rvalue::Cast(kind, a, to) => {
                    let from = self.opty(a);
                    if let (CastKind::PointerCoercion(..), ty::Ref(_, inner, _)) = (kind, from.kind()) {
                        if prim(*inner).is_some() {
                            // becomes a trait object: opaque from here on
                            let a2 = self.conc_any(a, out, si);
                            out.push(Step::Stmt(Statement::new(
                                si,
                                StatementKind::Assign(Box::new((*place, Rvalue::Cast(*kind, a2, *to)))),
                            )));
                            return;
                        }
                    }
                    let pf = prim(from);
                    let pt = prim(*to);
                    let constant = matches!(a, Operand::Constant(_));
                    let discr = match a {
                        Operand::Copy(pl) | Operand::Move(pl) => {
                            pl.as_local().map_or(false, |l| self.discr.contains(&l))
                        }
                        _ => false,
                    };
                    if let (Some(p), false, false) = (pf, constant, discr) {
                        let is_int = |p: Prim| p != Prim::F;
                        match kind {
                            CastKind::IntToInt if pt.map_or(false, is_int) => { /* same width */ }
                            CastKind::Transmute if pt.is_some() && is_int(p) == is_int(pt.unwrap()) => {}
                            CastKind::IntToFloat if pt == Some(Prim::F) => {
                                out.push(Step::Call(format!("{}_to_f64", pre(p)), vec![as_copy(a)], *place));
                                return;
                            }
                            CastKind::FloatToInt if pt.map_or(false, is_int) => {
                                out.push(Step::Call(
                                    format!("f64_to_{}", pre(pt.unwrap())),
                                    vec![as_copy(a)],
                                    *place,
                                ));
                                return;
                            }
                            CastKind::IntToInt | CastKind::IntToFloat | CastKind::FloatToInt
                            | CastKind::FloatToFloat | CastKind::Transmute => {
                                let a2 = self.conc(a, out, si);
                                out.push(Step::Stmt(Statement::new(
                                    si,
                                    StatementKind::Assign(Box::new((*place, Rvalue::Cast(*kind, a2, *to)))),
                                )));
                                return;
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        out.push(Step::Stmt(s.clone()));
    }

    fn call_term(&self, name: &str, args: Vec<Operand<'tcx>>, dest: Place<'tcx>, target: BasicBlock, cleanup: bool, si: SourceInfo) -> Terminator<'tcx> {
        let did = hook(self.tcx, name).unwrap();
        Terminator {
            source_info: si,
            kind: TerminatorKind::Call {
                func: Operand::function_handle(self.tcx, did, &[], si.span),
                args: args
                    .into_iter()
                    .map(|o| rustc_span::Spanned { node: o, span: si.span })
                    .collect(),
                destination: dest,
                target: Some(target),
                unwind: if cleanup {
                    UnwindAction::Terminate(UnwindTerminateReason::InCleanup)
                } else {
                    UnwindAction::Continue
                },
                call_source: CallSource::Misc,
                fn_span: si.span,
            },
        }
    }
}

fn instrument<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, body: &Body<'tcx>) -> Option<Body<'tcx>> {
    let mut rw = Rw { tcx, locals: body.local_decls.clone(), discr: vec![] };
    // locals that only ever hold enum discriminants
    for bb in body.basic_blocks.iter() {
        for s in &bb.statements {
            if let StatementKind::Assign(b) = &s.kind {
                if let (Some(l), Rvalue::Discriminant(_)) = (b.0.as_local(), &b.1) {
                    rw.discr.push(l);
                }
            }
        }
    }
    let mut changed = false;
    let mut blocks: rustc_index::IndexVec<BasicBlock, BasicBlockData<'tcx>> = rustc_index::IndexVec::new();
    let n = body.basic_blocks.len();
    // keep original block numbers: first n entries are the heads
    let mut tails: Vec<BasicBlockData<'tcx>> = Vec::new();
    let mut heads: Vec<BasicBlockData<'tcx>> = Vec::new();
    let trace_fn = {
        let k = tcx.def_kind(did);
        matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
    } && tcx.crate_name(did.krate).as_str() == "ncas";
    for (bi, bb) in body.basic_blocks.iter_enumerated() {
        let cleanup = bb.is_cleanup;
        let mut steps: Vec<Step<'tcx>> = Vec::new();
        let term = bb.terminator();
        if bi == START_BLOCK && trace_fn {
            let path = tcx.def_path_str(did);
            let unit = rw.new_local(tcx.types.unit, DUMMY_SP);
            // a stable small id, resolved through the table the driver prints
            let id = fnv(&path);
            record_fn(id, &path);
            let c = Operand::const_from_scalar(tcx, tcx.types.u64, Scalar::from_u64(id), DUMMY_SP);
            steps.push(Step::Call("enter".into(), vec![c], unit));
        }
        for s in &bb.statements {
            rw.stmt(s, &mut steps);
        }
        let mut new_term = term.clone();
        let tsi = term.source_info;
        let mut switch_chain: Option<(Operand<'tcx>, SwitchTargets, Prim)> = None;
        match &mut new_term.kind {
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = discr.ty(&rw.locals, tcx);
                if let Some(p) = prim(t) {
                    let is_d = match &discr {
                        Operand::Copy(pl) | Operand::Move(pl) => {
                            pl.as_local().map_or(false, |l| rw.discr.contains(&l))
                        }
                        _ => true,
                    };
                    if !is_d {
                        switch_chain = Some((as_copy(discr), targets.clone(), p));
                    }
                }
            }
            TerminatorKind::Call { func, args, .. } => {
                if let ty::FnDef(fd, ga) = func.ty(&rw.locals, tcx).kind() {
                    let fd = *fd;
                    let intrinsic = tcx.intrinsic(fd);
                    let foreign = tcx.is_foreign_item(fd);
                    if let Some(intr) = intrinsic {
                        let name = intr.name.to_string();
                        let on_f64 = ga.skip_binder().types().next().map_or(false, |t| prim(t) == Some(Prim::F));
                        let repl = match name.as_str() {
                            "powf" | "powf64" if on_f64 || name == "powf64" => Some("f64_powf"),
                            "powi" | "powif64" if on_f64 || name == "powif64" => Some("f64_powi"),
                            "fabs" | "fabsf64" if on_f64 || name == "fabsf64" => Some("f64_abs"),
                            "round" | "roundf64" if on_f64 || name == "roundf64" => Some("f64_round"),
                            "trunc" | "truncf64" if on_f64 || name == "truncf64" => Some("f64_trunc"),
                            "floor" | "floorf64" if on_f64 || name == "floorf64" => Some("f64_floor"),
                            "ceil" | "ceilf64" if on_f64 || name == "ceilf64" => Some("f64_ceil"),
                            _ => None,
                        };
                        if let Some(r) = repl {
                            *func = Operand::function_handle(tcx, hook(tcx, r).unwrap(), &[], tsi.span);
                            changed = true;
                        } else if intrinsic_conc(&name) {
                            for a in args.iter_mut() {
                                a.node = rw.conc(&a.node, &mut steps, tsi);
                            }
                        }
                    } else if foreign {
                        for a in args.iter_mut() {
                            a.node = rw.conc(&a.node, &mut steps, tsi);
                        }
                    } else if tcx.item_name(fd).as_str() == "integer_decode"
                        && args.len() == 1
                        && prim(rw.opty(&args[0].node)) == Some(Prim::F)
                    {
                        *func = Operand::function_handle(tcx, hook(tcx, "f64_integer_decode").unwrap(), &[], tsi.span);
                        changed = true;
                    } else if args.iter().any(|a| carries(rw.opty(&a.node))) {
                        if !instrumentable(tcx, did, fd, ga.skip_binder()) {
                            for a in args.iter_mut() {
                                a.node = rw.conc_any(&a.node, &mut steps, tsi);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if steps.iter().any(|s| matches!(s, Step::Call(..))) || switch_chain.is_some() {
            changed = true;
        }
        // assemble
        let mk = |stmts: Vec<Statement<'tcx>>, t: Option<Terminator<'tcx>>| {
            BasicBlockData::new_stmts(stmts, t, cleanup)
        };
        let mut cur: Vec<Statement<'tcx>> = Vec::new();
        let mut head_done = false;
        let push_block = |b: BasicBlockData<'tcx>, heads: &mut Vec<BasicBlockData<'tcx>>, tails: &mut Vec<BasicBlockData<'tcx>>, head_done: &mut bool| {
            if !*head_done {
                heads.push(b);
                *head_done = true;
            } else {
                tails.push(b);
            }
        };
        for st in steps {
            match st {
                Step::Stmt(s) => cur.push(s),
                Step::Call(name, args, dest) => {
                    let si = tsi;
                    // index of the block that follows
                    let next = if !head_done { tails.len() } else { tails.len() + 1 };
                    let target = BasicBlock::from_usize(n + next);
                    let t = rw.call_term(&name, args, dest, target, cleanup, si);
                    push_block(mk(std::mem::take(&mut cur), Some(t)), &mut heads, &mut tails, &mut head_done);
                }
            }
        }
        if let Some((d, targets, p)) = switch_chain {
            let items: Vec<(u128, BasicBlock)> = targets.iter().collect();
            let otherwise = targets.otherwise();
            let ty = d.ty(&rw.locals, tcx);
            for (k, (v, tgt)) in items.iter().enumerate() {
                let tmp = rw.new_local(tcx.types.bool, tsi.span);
                let c = Operand::const_from_scalar(tcx, ty, Scalar::from_u64(*v as u64), DUMMY_SP);
                let next = if !head_done { tails.len() } else { tails.len() + 1 };
                let target = BasicBlock::from_usize(n + next);
                let zero = rw.cu8(0);
                let t = rw.call_term(&format!("{}_cmp", pre(p)), vec![zero, d.clone(), c], tmp, target, cleanup, tsi);
                push_block(mk(std::mem::take(&mut cur), Some(t)), &mut heads, &mut tails, &mut head_done);
                let last = k + 1 == items.len();
                let else_bb = if last { otherwise } else { BasicBlock::from_usize(n + tails.len() + 1) };
                let sw = Terminator {
                    source_info: tsi,
                    kind: TerminatorKind::if_(Operand::Copy(tmp), *tgt, else_bb),
                };
                push_block(mk(vec![], Some(sw)), &mut heads, &mut tails, &mut head_done);
            }
            if items.is_empty() {
                let g = Terminator { source_info: tsi, kind: TerminatorKind::Goto { target: otherwise, loop_hint_attrs: Default::default() } };
                push_block(mk(cur, Some(g)), &mut heads, &mut tails, &mut head_done);
            }
        } else {
            push_block(mk(cur, Some(new_term)), &mut heads, &mut tails, &mut head_done);
        }
    }
    if !changed {
        return None;
    }
    for b in heads {
        blocks.push(b);
    }
    for b in tails {
        blocks.push(b);
    }
    let mut nb = body.clone();
    *nb.basic_blocks.as_mut() = blocks;
    nb.local_decls = rw.locals;
    Some(nb)
}

fn carries(t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Ref(_, i, m) => !m.is_mut() && prim(*i).is_some(),
        _ => prim(t).is_some(),
    }
}

/// will the code of this callee be compiled here, with the rewriting applied (or is it the runtime)?
fn instrumentable<'tcx>(tcx: TyCtxt<'tcx>, caller: DefId, callee: DefId, args: ty::GenericArgsRef<'tcx>) -> bool {
    let mut did = callee;
    if tcx.trait_of_assoc(callee).is_some() {
        let env = ty::TypingEnv::post_analysis(tcx, caller);
        match ty::Instance::try_resolve(tcx, env, callee, args) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Item(d) => did = d,
                ty::InstanceKind::Intrinsic(_) => return false,
                _ => return true,
            },
            // still generic: decided where it is instantiated (see `wants`)
            _ => return true,
        }
    }
    let c = tcx.crate_name(did.krate);
    if matches!(c.as_str(), "symrt" | "num" | "ncas") {
        return true;
    }
    wants(tcx, did) && tcx.is_mir_available(did)
}

/// intrinsics whose numeric arguments must be concrete
fn intrinsic_conc(name: &str) -> bool {
    !matches!(
        name,
        "black_box" | "forget" | "write_via_move" | "read_via_copy" | "volatile_store" | "volatile_load"
            | "typed_swap_nonoverlapping" | "discriminant_value" | "transmute" | "unchecked_add"
            | "assume" | "likely" | "unlikely" | "cold_path" | "arith_offset" | "offset"
            | "ptr_offset_from" | "ptr_offset_from_unsigned" | "select_unpredictable"
    )
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn record_fn(id: u64, path: &str) {
    use std::io::Write;
    if let Ok(f) = std::env::var("SYM_FN_TABLE") {
        if let Ok(mut o) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
            let _ = o.write_all(format!("{id:016x} {path}\n").as_bytes());
        }
    }
}

fn local_mir<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> &'tcx Body<'tcx> {
    let b = (ORIG_LOCAL.get().unwrap())(tcx, did);
    if !wants(tcx, did.to_def_id()) {
        return b;
    }
    match instrument(tcx, did.to_def_id(), b) {
        Some(nb) => tcx.arena.alloc(nb),
        None => b,
    }
}
fn extern_mir<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> &'tcx Body<'tcx> {
    let b = (ORIG_EXTERN.get().unwrap())(tcx, did);
    if !wants(tcx, did) {
        return b;
    }
    match instrument(tcx, did, b) {
        Some(nb) => tcx.arena.alloc(nb),
        None => b,
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    /// `std::collections` of the code under test resolves to the modelled containers
    fn after_crate_root_parsing(
        &mut self,
        compiler: &rustc_interface::interface::Compiler,
        krate: &mut rustc_ast::Crate,
    ) -> rustc_driver::Compilation {
        if compiler.sess.opts.crate_name.as_deref() == Some("ncas") {
            let src = "extern crate num as std;".to_string();
            let mut parser = rustc_parse::new_parser_from_source_str(
                &compiler.sess.psess,
                rustc_span::FileName::Custom("symdriver".into()),
                src,
                rustc_parse::lexer::StripTokens::Nothing,
            )
            .unwrap_or_else(|_| panic!("symdriver: parse"));
            if let Ok(Some(item)) = parser.parse_item(rustc_parse::parser::ForceCollect::No, rustc_parse::parser::AllowConstBlockItems::Yes) {
                krate.items.insert(0, item);
            } else {
                panic!("symdriver: parse");
            }
        }
        rustc_driver::Compilation::Continue
    }
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            ORIG_LOCAL.set(p.queries.optimized_mir).ok();
            ORIG_EXTERN.set(p.extern_queries.optimized_mir).ok();
            p.queries.optimized_mir = local_mir;
            p.extern_queries.optimized_mir = extern_mir;
        });
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
