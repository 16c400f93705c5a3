//! Fact extractor: a rustc driver that dumps the resolved MIR of every body of a workspace crate
//! (functions, methods, closures, promoteds), with types, resolved callees, ADT layouts and spans.
//! Injected with RUSTC_WORKSPACE_WRAPPER; it changes nothing about what is compiled.
#![feature(rustc_private)]
#![feature(exitcode_exit_method)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// crate-qualified path ("sc::spinchain::SpinChain::update") also for local items
    fn qpath(&self, d: DefId) -> String {
        let p = self.path(d);
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(d.krate), p)
        } else {
            p
        }
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(js(&format!("{:?}", c)));
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tymap.insert(t, id);
        self.types.push(String::new());
        let s = js(&with_no_trimmed_paths!(format!("{}", t)));
        let body = match *t.kind() {
            ty::Adt(def, args) => {
                let p = js(&self.qpath(def.did()));
                let a = self.args(args);
                self.adt(def);
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", p, a)
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(inner);
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", i, n)
            }
            ty::Slice(inner) => {
                let i = self.ty(inner);
                format!("\"k\":\"slice\",\"ty\":{}", i)
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"tys\":{}", arr(v))
            }
            ty::Closure(d, args) => {
                let ups = args.as_closure().tupled_upvars_ty();
                let u = self.ty(ups);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{}", js(&self.qpath(d)), u)
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = self.args(args);
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", js(&self.qpath(d)), a)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            _ if t.is_primitive() || t.is_str() || t.is_never() => "\"k\":\"prim\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"s\":{},{}}}", s, body);
        id
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        self.adts.insert(def.did(), String::new());
        let mut vs = vec![];
        for v in def.variants().iter() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if def.did().is_local() {
                        let t = self.tcx.type_of(f.did).instantiate_identity();
                        let t = t.skip_normalization();
                        self.ty(t).to_string()
                    } else {
                        "null".into()
                    };
                    format!(
                        "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                        js(f.name.as_str()),
                        t,
                        self.tcx.visibility(f.did).is_public()
                    )
                })
                .collect();
            vs.push(format!("{{\"name\":{},\"fields\":{}}}", js(v.name.as_str()), arr(fs)));
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adts.insert(
            def.did(),
            format!(
                "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"variants\":{}}}",
                js(&self.qpath(def.did())),
                kind,
                def.did().is_local(),
                arr(vs)
            ),
        );
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", js(&f), lo.line)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut ty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match ty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = ty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.as_str().to_string()
                        }
                        _ => f.index().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.index(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"ci\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, i) => format!(
                    "[\"dc\",{},{}]",
                    i.index(),
                    js(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                ),
                _ => "[\"other\"]".to_string(),
            };
            v.push(s);
            ty = ty.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(v))
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            return format!("{{\"c\":\"fn\",\"ty\":{},{}}}", tid, self.callee(owner, d, args));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"c\":\"promoted\",\"ty\":{},\"idx\":{},\"of\":{}}}",
                    tid,
                    p.index(),
                    js(&self.qpath(u.def))
                );
            }
            extra = format!(",\"name\":{}", js(&self.path(u.def)));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            return format!("{{\"c\":\"static\",\"ty\":{},\"path\":{}}}", tid, js(&self.qpath(d)));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        if let Ok(val) = c.const_.eval(tcx, env, c.span) {
            match val {
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let size = i.size();
                        match t.kind() {
                            ty::Float(ty::FloatTy::F64) => {
                                let f = f64::from_bits(i.to_bits(size) as u64);
                                return format!(
                                    "{{\"c\":\"float\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    js(&format!("{:?}", f)),
                                    extra
                                );
                            }
                            ty::Float(ty::FloatTy::F32) => {
                                let f = f32::from_bits(i.to_bits(size) as u32);
                                return format!(
                                    "{{\"c\":\"float\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    js(&format!("{:?}", f)),
                                    extra
                                );
                            }
                            ty::Bool => {
                                return format!(
                                    "{{\"c\":\"bool\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    i.to_bits(size) != 0,
                                    extra
                                );
                            }
                            ty::Char => {
                                let ch = char::from_u32(i.to_bits(size) as u32).unwrap_or('?');
                                return format!(
                                    "{{\"c\":\"char\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    js(&ch.to_string()),
                                    extra
                                );
                            }
                            ty::Int(_) => {
                                return format!(
                                    "{{\"c\":\"int\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    i.to_int(size),
                                    extra
                                );
                            }
                            ty::Uint(_) => {
                                return format!(
                                    "{{\"c\":\"int\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    i.to_bits(size),
                                    extra
                                );
                            }
                            _ => {}
                        }
                    }
                    // pointer to a byte-array allocation (byte-string literals, format templates)
                    if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            let inner = a.inner();
                            if off.bytes() == 0 && inner.provenance().ptrs().is_empty() {
                                let b = inner
                                    .inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len());
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!(
                                    "{{\"c\":\"bytes\",\"ty\":{},\"v\":{}{}}}",
                                    tid,
                                    arr(v),
                                    extra
                                );
                            }
                        }
                    }
                }
                ConstValue::ZeroSized => {
                    return format!("{{\"c\":\"zst\",\"ty\":{}{}}}", tid, extra);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(
                            "{{\"c\":\"str\",\"ty\":{},\"v\":{}{}}}",
                            tid,
                            js(&String::from_utf8_lossy(b)),
                            extra
                        );
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                        tcx.try_get_global_alloc(alloc_id)
                    {
                        let inner = a.inner();
                        if offset.bytes() == 0 && inner.provenance().ptrs().is_empty() {
                            let b = inner
                                .inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len());
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!(
                                "{{\"c\":\"bytes\",\"ty\":{},\"v\":{}{}}}",
                                tid,
                                arr(v),
                                extra
                            );
                        }
                    }
                }
            }
        }
        format!(
            "{{\"c\":\"opaque\",\"ty\":{},\"v\":{}{}}}",
            tid,
            js(&with_no_trimmed_paths!(format!("{}", c.const_))),
            extra
        )
    }
    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let a = self.args(args);
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let mut res = String::new();
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            let mut imp = String::from("null");
            if let Some(t) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(t).instantiate_identity().skip_normalization();
                imp = js(&with_no_trimmed_paths!(format!("{}", st)));
            }
            let ra = self.args(inst.args);
            res = format!(
                ",\"res\":{},\"reslocal\":{},\"impl\":{},\"resargs\":{}",
                js(&self.qpath(rd)),
                rd.is_local(),
                imp,
                ra
            );
        }
        format!(
            "\"path\":{},\"local\":{},\"args\":{}{}",
            js(&self.qpath(d)),
            d.is_local(),
            a,
            res
        )
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"const\":{}}}", self.konst(owner, c)),
            #[allow(unreachable_patterns)]
            other => format!("{{\"otherop\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(owner, body, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.op(owner, body, o),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"r\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(body, p))
            }
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{}}}",
                js(&format!("{:?}", k)),
                self.op(owner, body, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                b,
                self.op(owner, body, &ops.0),
                self.op(owner, body, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "{{\"r\":\"un\",\"op\":\"{:?}\",\"o\":{}}}",
                u,
                self.op(owner, body, o)
            ),
            Rvalue::Discriminant(p) => {
                format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(body, p))
            }
            Rvalue::Aggregate(k, fs) => {
                let kind = match **k {
                    AggregateKind::Array(_) => "\"agg\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"agg\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(d);
                        self.adt(def);
                        let names: Vec<String> = def
                            .variant(v)
                            .fields
                            .iter()
                            .map(|f| js(f.name.as_str()))
                            .collect();
                        format!(
                            "\"agg\":\"adt\",\"path\":{},\"variant\":{},\"vname\":{},\"names\":{},\"active\":{}",
                            js(&self.qpath(d)),
                            v.index(),
                            js(def.variant(v).name.as_str()),
                            arr(names),
                            active.map(|x| x.index().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"agg\":\"closure\",\"path\":{}", js(&self.qpath(d)))
                    }
                    _ => "\"agg\":\"other\"".to_string(),
                };
                let v = fs.iter().map(|o| self.op(owner, body, o)).collect();
                format!("{{\"r\":\"agg\",{},\"ops\":{}}}", kind, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!(
                "{{\"r\":\"use\",\"o\":{{\"copy\":{}}}}}",
                self.place(body, p)
            ),
            other => format!("{{\"r\":\"other\",\"v\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut o = String::new();
        let locals: Vec<String> = {
            let mut v = vec![];
            for d in body.local_decls.iter() {
                v.push(self.ty(d.ty).to_string());
            }
            v
        };
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
            }
        }
        let _ = write!(
            o,
            "\"argc\":{},\"locals\":{},\"dbg\":{},\"blocks\":[",
            body.arg_count,
            arr(locals),
            arr(dbg)
        );
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let mut sts = vec![];
            for st in &bb.statements {
                let sp = self.span(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let s = format!(
                            "{{\"s\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}",
                            self.place(body, p),
                            self.rvalue(owner, body, r),
                            sp
                        );
                        sts.push(s);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!(
                            "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{},\"sp\":{}}}",
                            self.place(body, place),
                            variant_index.index(),
                            sp
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        sts.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.index()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(body, self.tcx);
                    let vals: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.index()))
                        .collect();
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"vals\":{},\"else\":{}}}",
                        self.op(owner, body, discr),
                        self.ty(ty),
                        arr(vals),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"t\":\"resume\"}".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"t\":\"drop\",\"p\":{},\"to\":{},\"ty\":{}}}",
                    self.place(body, place),
                    target.index(),
                    {
                        let t = place.ty(body, self.tcx).ty;
                        self.ty(t)
                    }
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|x| self.op(owner, body, &x.node)).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"to\":{},\"sp\":{}}}",
                        self.op(owner, body, func),
                        arr(a),
                        self.place(body, destination),
                        target.map(|x| x.index().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "{{\"t\":\"assert\",\"o\":{},\"exp\":{},\"to\":{},\"msg\":{},\"sp\":{}}}",
                    self.op(owner, body, cond),
                    expected,
                    target.index(),
                    js(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        // inserted by the compiler around raw pointers (vec![..]); safe code cannot fail them
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference => "ptr",
                        _ => "other",
                    }),
                    sp
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.index())
                }
                other => format!("{{\"t\":\"other\",\"v\":{}}}", js(&format!("{:?}", other))),
            };
            let _ = write!(
                o,
                "{{\"cleanup\":{},\"st\":{},\"term\":{}}}",
                bb.is_cleanup,
                arr(sts),
                t
            );
        }
        o.push(']');
        o
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_static = matches!(kind, DefKind::Static { .. } | DefKind::Const { .. });
            if !is_fn && !is_static {
                continue;
            }
            let b: &Body<'tcx> = if is_fn {
                tcx.optimized_mir(d)
            } else if matches!(kind, DefKind::Static { .. }) {
                tcx.mir_for_ctfe(d)
            } else {
                continue;
            };
            let parent = tcx.parent(d);
            let promoted: Vec<String> = if is_fn {
                tcx.promoted_mir(d)
                    .iter()
                    .map(|p| format!("{{{}}}", self.body(d, p)))
                    .collect()
            } else {
                vec![]
            };
            let vis = if kind == DefKind::Closure {
                false
            } else {
                tcx.visibility(d).is_public()
            };
            let mut imp = String::from("null");
            let mut tr = String::from("null");
            if kind == DefKind::AssocFn {
                if let Some(i) = tcx.impl_of_assoc(d) {
                    let t = tcx.type_of(i).instantiate_identity().skip_normalization();
                    imp = js(&with_no_trimmed_paths!(format!("{}", t)));
                    if let Some(r) = tcx.impl_opt_trait_ref(i) {
                        tr = js(&self.path(r.instantiate_identity().skip_normalization().def_id));
                    }
                }
            }
            let derived = {
                let mut dd = d;
                let mut f = false;
                while let Some(p) = tcx.opt_parent(dd) {
                    if dd.is_local() && tcx.def_span(dd).from_expansion() {
                        f = true;
                    }
                    dd = p;
                }
                f
            };
            let s = format!(
                "{{\"path\":{},\"kind\":\"{:?}\",\"parent\":{},\"pub\":{},\"impl\":{},\"trait\":{},\"derived\":{},\"sp\":{},{},\"promoted\":{}}}",
                js(&self.qpath(d)),
                kind,
                js(&self.qpath(parent)),
                vis,
                imp,
                tr,
                derived,
                self.span(tcx.def_span(d)),
                self.body(d, b),
                arr(promoted)
            );
            fns.push(s);
        }
        let mut adts: Vec<String> = vec![];
        // ensure every local ADT is present
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let def = tcx.adt_def(d);
                self.adt(def);
            }
        }
        for v in self.adts.values() {
            adts.push(v.clone());
        }
        adts.sort();
        format!(
            "{{\"crate\":{},\"types\":{},\"adts\":{},\"fns\":{}}}",
            js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            arr(self.types.clone()),
            arr(adts),
            arr(fns)
        )
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            let mut d = Dump { tcx, types: vec![], tymap: HashMap::new(), adts: HashMap::new() };
            let s = d.run();
            std::fs::write(o, s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    let mut name = String::new();
    let mut ctype = String::from("bin");
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() {
            ctype = args[i + 1].clone();
        }
        i += 1;
    }
    let is_test = args.iter().any(|a| a == "--test");
    let out = match std::env::var("VERIF_FACTS_DIR") {
        Ok(dir) if !name.is_empty() && name != "___" && !is_test && name != "build_script_build" => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zinline-mir=no".into());
            args.push("-Coverflow-checks=off".into());
            Some(format!("{}/{}-{}.json", dir, name, ctype))
        }
        _ => None,
    };
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    code.exit_process()
}
