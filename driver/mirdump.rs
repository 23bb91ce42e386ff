// MIR fact dumper: a rustc driver (RUSTC_WORKSPACE_WRAPPER) which compiles the crate as usual and,
// for the crates named in MIRDUMP_CRATES, writes the type-checked program (MIR of every body, ADT
// layouts, attributes, impls, resolved callees) as JSON to MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    num_trait: Option<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified path, stable across compilations
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn key(&self, d: DefId) -> String {
        let s = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), s)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ids.insert(t, i);
        let s = self.ty_json(t);
        self.tys[i] = s;
        i
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(_c) = a.as_const() {
                v.push("-1".to_string());
            }
        }
        list(v)
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let s = esc(&t.to_string());
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_)
            | TyKind::Str | TyKind::Never => format!("{{\"k\":\"prim\",\"s\":{s}}}"),
            TyKind::Adt(d, args) => {
                let p = esc(&self.key(d.did()));
                let a = self.gargs(args);
                format!("{{\"k\":\"adt\",\"d\":{p},\"args\":{a},\"s\":{s}}}")
            }
            TyKind::Ref(_, t2, m) => {
                let i = self.ty(t2);
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{i},\"s\":{s}}}", m.is_mut())
            }
            TyKind::RawPtr(t2, m) => {
                let i = self.ty(t2);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{i},\"s\":{s}}}", m.is_mut())
            }
            TyKind::Array(t2, n) => {
                let i = self.ty(t2);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"t\":{i},\"n\":{n},\"s\":{s}}}")
            }
            TyKind::Slice(t2) => {
                let i = self.ty(t2);
                format!("{{\"k\":\"slice\",\"t\":{i},\"s\":{s}}}")
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"args\":{},\"s\":{s}}}", list(v))
            }
            TyKind::Closure(d, args) => {
                let p = esc(&self.key(d));
                let a = { let pa = self.tcx.mk_args(args.as_closure().parent_args()); self.gargs(pa) };
                format!("{{\"k\":\"closure\",\"d\":{p},\"args\":{a},\"s\":{s}}}")
            }
            TyKind::FnDef(d, args) => {
                let p = esc(&self.key(d));
                let a = match args.no_bound_vars() {
                    Some(a) => self.gargs(a),
                    None => "[]".into(),
                };
                format!("{{\"k\":\"fndef\",\"d\":{p},\"args\":{a},\"s\":{s}}}")
            }
            TyKind::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            TyKind::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"s\":{s}}}", esc(p.name.as_str())),
            TyKind::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        // outermost expansion site: where the source line is
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut out = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let mut name = f.as_usize().to_string();
                    match *pty.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => Some(def.variant(v)),
                                None if def.is_enum() => None,
                                None => Some(def.non_enum_variant()),
                            };
                            if let Some(v) = v {
                                name = v.fields[f].name.to_string();
                            }
                        }
                        _ => {}
                    }
                    format!("[\".\",{},{},{}]", f.as_usize(), esc(&name), self.ty(fty))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{offset},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    format!("[\"d\",{},{}]", v.as_usize(), esc(&nm))
                }
                _ => "[\"?\"]".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},[{}]]", p.local.as_usize(), out.join(","))
    }

    fn operand(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => {
                let c = &**c;
                let t = c.const_.ty();
                let ti = self.ty(t);
                let mut extra = String::new();
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        if let Some(p) = u.promoted {
                            let _ = write!(
                                extra,
                                ",\"promoted\":{},\"pd\":{}",
                                p.as_usize(),
                                esc(&self.key(u.def))
                            );
                        } else {
                            let _ = write!(extra, ",\"named\":{}", esc(&self.key(u.def)));
                        }
                    }
                    Const::Ty(_, ct) => {
                        let _ = write!(extra, ",\"cty\":{}", esc(&ct.to_string()));
                    }
                    _ => {}
                }
                if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                    if let Some(si) = c.const_.try_eval_scalar_int(self.tcx, te) {
                        let size = si.size();
                        let bits = si.to_bits(size);
                        let _ = match *t.kind() {
                            TyKind::Float(ty::FloatTy::F64) => {
                                let f = f64::from_bits(bits as u64);
                                write!(extra, ",\"f\":{}", esc(&format!("{f:?}")))
                            }
                            TyKind::Float(ty::FloatTy::F32) => {
                                let f = f32::from_bits(bits as u32);
                                write!(extra, ",\"f\":{}", esc(&format!("{f:?}")))
                            }
                            TyKind::Int(_) => write!(extra, ",\"v\":{}", size.sign_extend(bits)),
                            _ => write!(extra, ",\"v\":{bits}"),
                        };
                    }
                }
                if extra.is_empty() {
                    let _ = write!(extra, ",\"s\":{}", esc(&format!("{}", c.const_)));
                }
                format!("{{\"o\":\"const\",\"t\":{ti}{extra}}}")
            }
            #[allow(unreachable_patterns)]
            other => {
                format!("{{\"o\":\"other\",\"s\":{}}}", esc(&format!("{other:?}")))
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(body, te, o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(body, te, o), n.try_to_target_usize(self.tcx).map_or("null".to_string(), |x| x.to_string())),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}",
                esc(&format!("{k:?}")),
                self.operand(body, te, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{},\"b\":{}}}",
                self.operand(body, te, &b.0),
                self.operand(body, te, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!(
                "{{\"r\":\"un\",\"op\":\"{op:?}\",\"a\":{}}}",
                self.operand(body, te, o)
            ),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(body, *p)),
            Rvalue::CopyForDeref(p) => format!(
                "{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}",
                self.place(body, *p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                // a reborrow of the pointer value held in p: same pointer
                format!(
                    "{{\"r\":\"use\",\"reborrow\":{},\"a\":{{\"o\":\"copy\",\"p\":{}}}}}",
                    m.is_mut(),
                    self.place(body, *p)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"k\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"k\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"names\":{}",
                            esc(&self.key(*d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            list(names)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"k\":\"closure\",\"d\":{}", esc(&self.key(*d))),
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".to_string(),
                    _ => "\"k\":\"other\"".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, te, o)).collect();
                format!("{{\"r\":\"agg\",{kind},\"ops\":{}}}", list(v))
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{other:?}"))),
        }
    }

    fn callee(&mut self, te: ty::TypingEnv<'tcx>, fty: Ty<'tcx>) -> String {
        match *fty.kind() {
            TyKind::FnDef(d, args) => {
                let args = match args.no_bound_vars() {
                    Some(a) => a,
                    None => return format!("{{\"d\":{},\"args\":[]}}", esc(&self.key(d))),
                };
                let mut s = format!(
                    "{{\"d\":{},\"p\":{},\"n\":{},\"args\":{}",
                    esc(&self.key(d)),
                    esc(&self.path(d)),
                    esc(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()),
                    self.gargs(args)
                );
                if let Some(tr) = self.tcx.trait_of_assoc(d) {
                    let _ = write!(s, ",\"trait\":{},\"self\":{}", esc(&self.key(tr)), self.ty(args.type_at(0)));
                }
                let eargs = self.tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, te, d, eargs) {
                    let rd = inst.def_id();
                    let _ = write!(s, ",\"r\":{},\"rargs\":{}", esc(&self.key(rd)), self.gargs(inst.args));
                    if !matches!(inst.def, ty::InstanceKind::Item(_)) {
                        let k = format!("{:?}", inst.def);
                        let k = k.split('(').next().unwrap_or("").to_string();
                        let _ = write!(s, ",\"rk\":{}", esc(&k));
                    }
                }
                s.push('}');
                s
            }
            _ => format!("{{\"ptr\":{}}}", self.ty(fty)),
        }
    }

    fn body(&mut self, te: ty::TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{t},{}]", esc(n)),
                    None => format!("[{t}]"),
                }
            })
            .collect();
        // type parameters / projections that are numbers here
        let mut nums: Vec<String> = vec![];
        if let Some(nt) = self.num_trait {
            let mut cand: Vec<Ty<'tcx>> = vec![];
            for d in body.local_decls.iter() {
                for g in d.ty.walk() {
                    if let Some(t) = g.as_type() {
                        if matches!(*t.kind(), TyKind::Param(_) | TyKind::Alias(..)) && !cand.contains(&t) {
                            cand.push(t);
                        }
                    }
                }
            }
            if !cand.is_empty() {
                let (infcx, penv) = self.tcx.infer_ctxt().build_with_typing_env(te);
                for t in cand {
                    let t2 = self.tcx.erase_and_anonymize_regions(t);
                    if infcx.type_implements_trait(nt, [t2], penv).may_apply() {
                        nums.push(self.ty(t).to_string());
                    }
                }
            }
        }
        let mut blocks = vec![];
        for bd in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bd.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let ps = self.place(body, *p);
                        let rs = self.rvalue(body, te, r);
                        st.push(format!("[\"=\",{ps},{rs},{}]", self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, **place);
                        st.push(format!("[\"sd\",{ps},{}]", variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{i:?}")))),
                    _ => {}
                }
            }
            let t = bd.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{},\"ln\":{ln}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tg: Vec<String> = targets.iter().map(|(v, b)| format!("[{v},{}]", b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    format!(
                        "{{\"t\":\"switch\",\"on\":{},\"ty\":{},\"cases\":{},\"else\":{},\"ln\":{ln}}}",
                        self.operand(body, te, discr),
                        self.ty(dt),
                        list(tg),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => format!("{{\"t\":\"return\",\"ln\":{ln}}}"),
                TerminatorKind::Unreachable => format!("{{\"t\":\"unreachable\",\"ln\":{ln}}}"),
                TerminatorKind::UnwindResume => format!("{{\"t\":\"resume\",\"ln\":{ln}}}"),
                TerminatorKind::UnwindTerminate(_) => format!("{{\"t\":\"abort\",\"ln\":{ln}}}"),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"uw\":{},\"ln\":{ln}}}",
                        self.place(body, *place),
                        self.ty(pt),
                        target.as_usize(),
                        uw(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let c = self.callee(te, fty);
                    let f = match func {
                        Operand::Constant(_) => "null".to_string(),
                        o => self.operand(body, te, o),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, te, &x.node)).collect();
                    let to = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                    let exp = t.source_info.span.from_expansion();
                    let mac = if exp {
                        let k = t.source_info.span.ctxt().outer_expn_data().kind.descr().to_string();
                        esc(&k)
                    } else {
                        "null".into()
                    };
                    format!(
                        "{{\"t\":\"call\",\"c\":{c},\"f\":{f},\"args\":{},\"dst\":{},\"to\":{to},\"uw\":{},\"mac\":{mac},\"ln\":{ln}}}",
                        list(a),
                        self.place(body, *destination),
                        uw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(body, te, len),
                            self.operand(body, te, index)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",\"{op:?}\",{},{}]",
                            self.operand(body, te, a),
                            self.operand(body, te, b)
                        ),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(body, te, a)),
                        AssertKind::DivisionByZero(a) => format!("[\"divzero\",{}]", self.operand(body, te, a)),
                        AssertKind::RemainderByZero(a) => format!("[\"remzero\",{}]", self.operand(body, te, a)),
                        other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{expected},\"msg\":{m},\"to\":{},\"uw\":{},\"ln\":{ln}}}",
                        self.operand(body, te, cond),
                        target.as_usize(),
                        uw(unwind)
                    )
                }
                other => format!("{{\"t\":\"other\",\"s\":{},\"ln\":{ln}}}", esc(&format!("{other:?}"))),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{ts},\"cl\":{}}}",
                st.join(","),
                bd.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"nums\":{},\"upv\":{},\"blocks\":{}",
            body.arg_count,
            list(locals),
            list(nums),
            list(upv),
            list(blocks)
        )
    }

    fn func(&mut self, d: DefId) -> Option<String> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let te = ty::TypingEnv::post_analysis(tcx, d);
        let (body, promoted): (&Body<'tcx>, Option<_>) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), Some(tcx.promoted_mir(d))),
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                (tcx.mir_for_ctfe(d), Some(tcx.promoted_mir(d)))
            }
            _ => return None,
        };
        let mut s = format!(
            "{{\"d\":{},\"p\":{},\"kind\":{},\"span\":{}",
            esc(&self.key(d)),
            esc(&self.path(d)),
            esc(&format!("{kind:?}")),
            self.span(tcx.def_span(d))
        );
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"n\":{}", esc(n.as_str()));
        }
        let root = tcx.typeck_root_def_id(d);
        if root != d {
            let _ = write!(s, ",\"root\":{}", esc(&self.key(root)));
            let _ = write!(s, ",\"parent\":{}", esc(&self.key(tcx.parent(d))));
        }
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"trait\":{}", esc(&self.key(tr)));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"impl_self\":{}", self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"impl_trait\":{},\"impl_trait_s\":{}", esc(&self.key(tr.def_id)), esc(&tr.to_string()));
                }
                let derived = tcx.is_automatically_derived(im);
                let _ = write!(s, ",\"derived\":{derived}");
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let attrs = tcx.codegen_fn_attrs(d);
            let no_mangle = attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
            let sym = attrs.symbol_name.map(|x| x.to_string()).unwrap_or_default();
            let _ = write!(
                s,
                ",\"abi\":{},\"no_mangle\":{no_mangle},\"export\":{},\"unsafe\":{},\"pub\":{},\"sig\":{}",
                esc(&format!("{}", sig.abi())),
                esc(&sym),
                sig.safety().is_unsafe(),
                tcx.visibility(d).is_public(),
                esc(&sig.to_string())
            );
            let vis = tcx.effective_visibilities(());
            if let Some(ld) = d.as_local() {
                let _ = write!(s, ",\"reach\":{}", vis.is_reachable(ld));
            }
            let gens: Vec<String> = {
                let mut v = vec![];
                let g = tcx.generics_of(d);
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        v.push(esc(p.name.as_str()));
                    }
                }
                v
            };
            let _ = write!(s, ",\"gens\":{}", list(gens));
        }
        s.push(',');
        s.push_str(&self.body(te, body));
        if let Some(pr) = promoted {
            let mut v = vec![];
            for b in pr.iter() {
                v.push(format!("{{{}}}", self.body(te, b)));
            }
            let _ = write!(s, ",\"prom\":{}", list(v));
        }
        s.push('}');
        Some(s)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if !want.split(',').any(|x| x == name) {
            return Compilation::Continue;
        }
        // only library targets (skip tests/benches harness builds)
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut cx = Cx { tcx, tys: vec![], ty_ids: HashMap::new(), num_trait: None };
        cx.num_trait = tcx.all_traits_including_private().find(|d| tcx.def_path_str(*d).ends_with("num_traits::Num"));
        let mut fns = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index);
        for k in keys {
            if let Some(s) = cx.func(k.to_def_id()) {
                fns.push(s);
            }
        }
        let mut adts = vec![];
        let mut statics = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!("[{},{},{}]", esc(f.name.as_str()), cx.ty(t), f.vis.is_public())
                            })
                            .collect();
                        vs.push(format!("[{},{}]", esc(v.name.as_str()), list(fs)));
                    }
                    adts.push(format!(
                        "{{\"d\":{},\"repr_c\":{},\"packed\":{},\"align\":{},\"transparent\":{},\"kind\":\"{:?}\",\"vars\":{}}}",
                        esc(&cx.key(d)),
                        def.repr().c(),
                        def.repr().packed(),
                        def.repr().align.is_some(),
                        def.repr().transparent(),
                        tcx.def_kind(d),
                        list(vs)
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!(
                        "{{\"d\":{},\"mut\":{},\"t\":{},\"freeze\":{}}}",
                        esc(&cx.key(d)),
                        mutability.is_mut(),
                        cx.ty(t),
                        t.is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, d))
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|x| x.is_fn())
                        .map(|x| format!("[{},{}]", esc(&cx.key(x.def_id)), tcx.defaultness(x.def_id).has_value()))
                        .collect();
                    traits.push(format!("{{\"d\":{},\"items\":{}}}", esc(&cx.key(d)), list(items)));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        format!("{},\"trs\":{}", esc(&cx.key(t.def_id)), esc(&t.to_string()))
                    } else {
                        "null".into()
                    };
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| {
                            let tid = tcx
                                .trait_item_of(*x)
                                .map(|y| esc(&cx.key(y)))
                                .unwrap_or("null".into());
                            format!("[{},{},{}]", esc(tcx.opt_item_name(*x).map(|x| x.to_string()).unwrap_or_default().as_str()), esc(&cx.key(*x)), tid)
                        })
                        .collect();
                    impls.push(format!(
                        "{{\"d\":{},\"self\":{sti},\"trait\":{tr},\"items\":{}}}",
                        esc(&cx.key(d)),
                        list(items)
                    ));
                }
                _ => {}
            }
        }
        let tys = list(cx.tys.clone());
        let js = format!(
            "{{\"crate\":{},\"fns\":{},\n\"adts\":{},\n\"statics\":{},\n\"impls\":{},\n\"traits\":{},\n\"tys\":{}}}",
            esc(&name),
            format!("[{}]", fns.join(",\n")),
            list(adts),
            list(statics),
            list(impls),
            list(traits),
            tys
        );
        let feat = std::env::var("MIRDUMP_TAG").unwrap_or_default();
        let f = format!("{out}/{name}{feat}.json");
        std::fs::write(&f, js).expect("write mirdump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("--cap-lints".into());
    args.push("allow".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zub-checks=no".into());
    args.push("-Zalways-encode-mir=no".into());
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
