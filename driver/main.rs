// Facts driver: a rustc wrapper that, for the workspace crates of shpool,
// dumps the drop-elaborated MIR (resolved callees, types, constants) as JSON.
// Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified absolute path
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{krate}::{p}")
        } else {
            p
        }
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = with_no_trimmed_paths!(format!("{t}"));
        let mut args: Vec<String> = vec![];
        let (k, def): (&str, String) = match *t.kind() {
            ty::Adt(def, a) => {
                self.adt(def.did());
                for g in a.types() {
                    args.push(self.ty(g).to_string());
                }
                ("adt", self.path(def.did()))
            }
            ty::Ref(_, inner, m) => {
                args.push(self.ty(inner).to_string());
                (if m.is_mut() { "refmut" } else { "ref" }, String::new())
            }
            ty::RawPtr(inner, _) => {
                args.push(self.ty(inner).to_string());
                ("ptr", String::new())
            }
            ty::Tuple(ts) => {
                for x in ts.iter() {
                    args.push(self.ty(x).to_string());
                }
                ("tuple", String::new())
            }
            ty::Array(x, _) => {
                args.push(self.ty(x).to_string());
                ("array", String::new())
            }
            ty::Slice(x) => {
                args.push(self.ty(x).to_string());
                ("slice", String::new())
            }
            ty::Closure(d, a) => {
                for u in a.as_closure().upvar_tys() {
                    args.push(self.ty(u).to_string());
                }
                ("closure", self.path(d))
            }
            ty::FnDef(d, a) => {
                for g in a.skip_binder().types() {
                    args.push(self.ty(g).to_string());
                }
                ("fndef", self.path(d))
            }
            ty::FnPtr(..) => ("fnptr", String::new()),
            ty::Dynamic(preds, ..) => {
                let d = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                ("dyn", d)
            }
            ty::Param(p) => ("param", p.name.to_string()),
            ty::Alias(..) => ("alias", String::new()),
            ty::Bool => ("bool", String::new()),
            ty::Int(x) => ("int", x.name_str().to_string()),
            ty::Uint(x) => ("uint", x.name_str().to_string()),
            ty::Char => ("char", String::new()),
            ty::Str => ("str", String::new()),
            ty::Never => ("never", String::new()),
            ty::Float(_) => ("float", String::new()),
            _ => ("other", String::new()),
        };
        self.types[i] = format!(
            "{{\"k\":{},\"s\":{},\"d\":{},\"a\":[{}]}}",
            esc(k),
            esc(&s),
            esc(&def),
            args.join(",")
        );
        i
    }

    fn flush_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let def = self.tcx.adt_def(d);
            let local = self.tcx.crate_name(d.krate).to_string();
            let is_ours = ["libshpool", "shpool", "shpool_protocol", "shpool-protocol"].contains(&local.as_str());
            let mut vs = vec![];
            let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(v, d)| (v, d.val)).collect()
            } else {
                vec![]
            };
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = discrs.iter().find(|x| x.0 == vi).map(|x| x.1).unwrap_or(0);
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let fty = if is_ours {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        self.ty(t) as i64
                    } else {
                        -1
                    };
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), fty));
                }
                vs.push(format!(
                    "{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}",
                    esc(v.name.as_str()),
                    discr,
                    fs.join(",")
                ));
            }
            let dtor = self
                .tcx
                .adt_destructor(d)
                .map(|x| esc(&self.path(x.did)))
                .unwrap_or("null".into());
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            self.adt_out.push(format!(
                "{{\"p\":{},\"k\":\"{}\",\"local\":{},\"dtor\":{},\"v\":[{}]}}",
                esc(&self.path(d)),
                kind,
                is_ours,
                dtor,
                vs.join(",")
            ));
        }
    }

    fn span(&self, sp: Span) -> (String, usize, Vec<String>) {
        let mut macs = vec![];
        let mut cur = sp;
        let mut n = 0;
        while cur.from_expansion() && n < 20 {
            let ed = cur.ctxt().outer_expn_data();
            let name = match ed.kind {
                rustc_span::ExpnKind::Macro(_, sym) => sym.to_string(),
                rustc_span::ExpnKind::Desugaring(k) => format!("desugar:{k:?}"),
                rustc_span::ExpnKind::AstPass(k) => format!("ast:{k:?}"),
                _ => String::from("root"),
            };
            macs.push(name);
            cur = ed.call_site;
            n += 1;
        }
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(cur.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line, macs)
    }

    fn sp(&self, sp: Span) -> String {
        let (_, l, m) = self.span(sp);
        if m.is_empty() {
            format!("[{l}]")
        } else {
            format!("[{l},{}]", m.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![p.local.as_usize().to_string()];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if v.as_usize() < def.variants().len() {
                            if let Some(fd) = def.variant(v).fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                    }
                    format!("[{},{},{}]", f.as_usize(), esc(&name), self.ty(fty))
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"c\":{},\"e\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"s\":1,\"from\":{},\"to\":{},\"e\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("{{\"v\":{}}}", v.as_usize()),
                _ => "{\"o\":1}".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, el);
        }
        format!("[{}]", out.join(","))
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 5 {
            return "null".into();
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Pat(..) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let sz = s.size();
                    if matches!(t.kind(), ty::Int(_)) {
                        return format!("{{\"i\":\"{}\"}}", s.to_int(sz));
                    }
                    return format!("{{\"i\":\"{}\"}}", s.to_bits(sz));
                }
                "null".into()
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
                "null".into()
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                }
                "null".into()
            }
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                if let ConstValue::ZeroSized = v {
                    if let ty::Adt(def, _) = t.kind() {
                        if def.is_struct() {
                            return "{\"agg\":[],\"v\":0}".into();
                        }
                    }
                    if matches!(t.kind(), ty::Tuple(_)) {
                        return "{\"agg\":[],\"v\":null}".into();
                    }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return "null".into();
                    }
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map(|n| n > 600).unwrap_or(true) {
                        return "null".into();
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.iter().copied().collect();
                    let mut o = vec![];
                    for (fv, ft) in fs {
                        o.push(self.const_value(fv, ft, depth + 1));
                    }
                    return format!(
                        "{{\"agg\":{},\"v\":{}}}",
                        arr(&o),
                        d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into())
                    );
                }
                "null".into()
            }
            _ => "null".into(),
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(body, env, c),
            _ => "{\"k\":{\"t\":-1,\"v\":null}}".to_string(),
        }
    }

    fn constant(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let _ = body;
        let t = c.const_.ty();
        let ti = self.ty(t);
        match t.kind() {
            ty::FnDef(d, a) => {
                let r = self.callee(env, *d, a.no_bound_vars_or(self.tcx));
                return format!("{{\"k\":{{\"t\":{ti},\"fn\":{r}}}}}");
            }
            _ => {}
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            extra = format!(
                ",\"u\":{},\"pr\":{}",
                esc(&self.path(u.def)),
                u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into())
            );
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            extra = format!(",\"st\":{}", esc(&self.path(d)));
        }
        // generic constants cannot be evaluated
        let has_params = {
            use ty::TypeVisitableExt;
            c.const_.has_param()
        };
        let v = if has_params {
            "null".to_string()
        } else {
            match c.const_.eval(self.tcx, env, c.span) {
                Ok(v) => self.const_value(v, t, 0),
                Err(_) => "null".to_string(),
            }
        };
        format!("{{\"k\":{{\"t\":{ti},\"v\":{v}{extra}}}}}")
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut targs = vec![];
        for t in args.types() {
            targs.push(self.ty(t).to_string());
        }
        let mut res = "null".to_string();
        let mut res_krate = "null".to_string();
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(nargs) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, nargs) {
                    match inst.def {
                        ty::InstanceKind::Item(rd) => {
                            res = esc(&self.path(rd));
                            res_krate = esc(tcx.crate_name(rd.krate).as_str());
                        }
                        ty::InstanceKind::Virtual(rd, _) => {
                            res = esc(&format!("dyn:{}", self.path(rd)));
                        }
                        _ => {}
                    }
                }
            }
        }
        let tr = match tcx.opt_associated_item(d) {
            Some(ai) => match ai.container {
                ty::AssocContainer::Trait => esc(&self.path(tcx.parent(d))),
                ty::AssocContainer::TraitImpl(_) => {
                    "null".into()
                }
                _ => "null".into(),
            },
            None => "null".into(),
        };
        format!(
            "{{\"p\":{},\"ta\":[{}],\"r\":{},\"rk\":{},\"tr\":{},\"cr\":{}}}",
            esc(&self.path(d)),
            targs.join(","),
            res,
            res_krate,
            tr,
            esc(tcx.crate_name(d.krate).as_str())
        )
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, env, o),
                n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                match bk {
                    BorrowKind::Mut { .. } => "1",
                    _ => "0",
                },
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"ref\",{},{}]",
                if format!("{k:?}").contains("Mut") { "1" } else { "0" },
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int",
                    CastKind::PointerCoercion(..) => "coerce",
                    CastKind::Transmute => "transmute",
                    _ => "other",
                };
                let os = self.operand(body, env, o);
                format!("[\"cast\",\"{}\",{},{}]", ks, os, self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(body, env, &b.0);
                let c = self.operand(body, env, &b.1);
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, c)
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let mut os = vec![];
                for o in ops.iter() {
                    os.push(self.operand(body, env, o));
                }
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        self.adt(*d);
                        let mut ta = vec![];
                        for t in a.types() {
                            ta.push(self.ty(t).to_string());
                        }
                        format!(
                            "[\"adt\",{},{},{},[{}]]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            uf.map(|f| f.as_usize().to_string()).unwrap_or("null".into()),
                            ta.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(&os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".to_string(),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, def: DefId, name: String, kind: &str, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(body, &x.0);
                        let r = self.rvalue(body, env, &x.1);
                        sts.push(format!("[{},{},{}]", self.sp(s.source_info.span), p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        sts.push(format!(
                            "[{},{},[\"setd\",{}]]",
                            self.sp(s.source_info.span),
                            p,
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let tsp = self.sp(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, env, discr);
                    let dt = discr.ty(body, tcx);
                    let dti = self.ty(dt);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[\"{}\",{}]", val, bb.as_usize()));
                    }
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        o,
                        dti,
                        arr(&v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pty = place.ty(body, tcx).ty;
                    let p = self.place(body, place);
                    let ti = self.ty(pty);
                    format!("[\"drop\",{},{},{},{}]", p, ti, target.as_usize(), unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, env, func);
                    let mut a = vec![];
                    for x in args.iter() {
                        a.push(self.operand(body, env, &x.node));
                    }
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(&a),
                        d,
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        unw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(body, env, len);
                            let i = self.operand(body, env, index);
                            format!("[\"bounds\",{l},{i}]")
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(body, env, a);
                            let b = self.operand(body, env, b);
                            format!("[\"overflow\",\"{op:?}\",{a},{b}]")
                        }
                        AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".into(),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "[\"divzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"unreachable\"]".to_string(),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{},\"l\":{},\"cl\":{}}}",
                sts.join(","),
                ts,
                tsp,
                b.is_cleanup
            ));
        }
        let (file, line, macs) = self.span(body.span);
        let parent = tcx.opt_parent(def).map(|p| esc(&self.path(p))).unwrap_or("null".into());
        let _ = macs;
        // closures: capture names
        let mut caps = vec![];
        if let Some(l) = def.as_local() {
            if tcx.is_closure_like(def) {
                for c in tcx.closure_captures(l) {
                    caps.push(esc(&c.to_string(tcx)));
                }
            }
        }
        // names of the generic parameters (parents first); closures have those of their function
        let mut gens = vec![];
        {
            let base = tcx.typeck_root_def_id(def);
            let mut chain = vec![];
            let mut cur = Some(base);
            while let Some(d) = cur {
                let g = tcx.generics_of(d);
                chain.push(g);
                cur = g.parent;
            }
            for g in chain.iter().rev() {
                for p in g.own_params.iter() {
                    if matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Type { .. }) {
                        gens.push(esc(p.name.as_str()));
                    }
                }
            }
        }
        format!(
            "{{\"gen\":[{}],\"p\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"parent\":{},\"argc\":{},\"locals\":[{}],\"names\":[{}],\"caps\":[{}],\"spread\":{},\"b\":[\n{}]}}",
            gens.join(","),
            esc(&name),
            kind,
            esc(&file),
            line,
            parent,
            body.arg_count,
            locals.join(","),
            names.join(","),
            caps.join(","),
            body.spread_arg.is_some(),
            blocks.join(",\n")
        )
    }
}

trait NoBound<'tcx> {
    fn no_bound_vars_or(self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> NoBound<'tcx> for ty::Binder<'tcx, ty::GenericArgsRef<'tcx>> {
    fn no_bound_vars_or(self, _tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx> {
        self.skip_binder()
    }
}
impl<'tcx> NoBound<'tcx> for ty::GenericArgsRef<'tcx> {
    fn no_bound_vars_or(self, _tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx> {
        self
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, cfg: &mut interface::Config) {
        cfg.opts.unstable_opts.mir_opt_level = Some(0);
        cfg.opts.unstable_opts.inline_mir = Some(false);
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = &self.out else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            adts: HashMap::new(),
            adt_out: vec![],
            adt_queue: vec![],
        };
        let mut bodies = vec![];
        let mut consts = vec![];
        for l in tcx.hir_body_owners() {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    let k = match kind {
                        DefKind::Closure => "closure",
                        DefKind::AssocFn => "method",
                        _ => "fn",
                    };
                    let name = cx.path(d);
                    bodies.push(cx.body(d, name.clone(), k, body));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        let n = format!("{}::promoted[{}]", name, pi.as_usize());
                        bodies.push(cx.body(d, n, "promoted", pb));
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    let generics = tcx.generics_of(d);
                    if generics.requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let name = cx.path(d);
                    let v = if matches!(kind, DefKind::Static { .. }) {
                        "null".to_string()
                    } else {
                        match tcx.const_eval_poly(d) {
                            Ok(v) => cx.const_value(v, t, 0),
                            Err(_) => "null".into(),
                        }
                    };
                    consts.push(format!("{{\"p\":{},\"t\":{},\"v\":{}}}", esc(&name), ti, v));
                    let body = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, name.clone(), "const", body));
                    for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        let n = format!("{}::promoted[{}]", name, pi.as_usize());
                        bodies.push(cx.body(d, n, "promoted", pb));
                    }
                }
                _ => {}
            }
        }
        // trait impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    esc(&cx.path(t.def_id))
                } else {
                    "null".into()
                };
                let mut ms = vec![];
                for ai in tcx.associated_items(d).in_definition_order() {
                    if matches!(ai.kind, ty::AssocKind::Fn { .. }) {
                        let p = cx.path(ai.def_id);
                        let tm = ai.trait_item_def_id().map(|x| esc(&cx.path(x))).unwrap_or("null".into());
                        ms.push(format!("[{},{},{}]", esc(ai.name().as_str()), esc(&p), tm));
                    }
                }
                impls.push(format!("{{\"tr\":{},\"self\":{},\"m\":[{}]}}", tr, sti, ms.join(",")));
            }
        }
        // traits with provided methods
        cx.flush_adts();
        // types referenced by adts may add more adts
        cx.flush_adts();
        let is_test = tcx.sess.opts.test;
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable"));
        let feats: Vec<String> = tcx
            .sess
            .config
            .iter()
            .filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|x| esc(x.as_str())) } else { None })
            .collect();
        let out = format!(
            "{{\"crate\":{},\"bin\":{},\"test\":{},\"features\":[{}],\n\"types\":[\n{}],\n\"adts\":[\n{}],\n\"consts\":[{}],\n\"impls\":[{}],\n\"bodies\":[\n{}]}}\n",
            esc(&krate),
            is_bin,
            is_test,
            feats.join(","),
            cx.types.join(",\n"),
            cx.adt_out.join(",\n"),
            consts.join(",\n"),
            impls.join(",\n"),
            bodies.join(",\n")
        );
        let fname = format!("{}/{}{}{}.json", dir, krate, if is_bin { "-bin" } else { "" }, if is_test { "-test" } else { "" });
        std::fs::write(&fname, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("VERIF_FACTS_DIR").ok();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = match (&cname, want) {
        (Some(n), Some(d)) if n != "___" && !n.starts_with("build_script") => Some(d),
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
