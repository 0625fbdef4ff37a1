// MIR exporter: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that writes the type-checked
// program of the workspace crates as JSON.  It decides nothing; all rules live in ../analysis.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::ty::{self, TyCtxt};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))
}

fn tystr<'tcx>(t: ty::Ty<'tcx>) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(format!("{}", t)))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: ty::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth == 0 {
            return format!("{{\"k\":\"deep\",\"s\":{}}}", esc(&tystr(t)));
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&tystr(t)))
            }
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x, depth - 1)).collect();
                format!(
                    "{{\"k\":\"adt\",\"path\":{},\"args\":[{}],\"enum\":{}}}",
                    esc(&path(tcx, def.did())),
                    a.join(","),
                    def.is_enum()
                )
            }
            ty::Array(e, n) => format!(
                "{{\"k\":\"array\",\"e\":{},\"n\":{}}}",
                self.ty(*e, depth - 1),
                esc(&format!("{}", n))
            ),
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(*e, depth - 1)),
            ty::RawPtr(e, m) => format!(
                "{{\"k\":\"ptr\",\"e\":{},\"mut\":{}}}",
                self.ty(*e, depth - 1),
                m.is_mut()
            ),
            ty::Ref(_, e, m) => format!(
                "{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}",
                self.ty(*e, depth - 1),
                m.is_mut()
            ),
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"path\":{}}}", esc(&path(tcx, *d))),
            ty::Closure(d, _) => {
                format!("{{\"k\":\"closure\",\"path\":{}}}", esc(&path(tcx, *d)))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x, depth - 1)).collect();
                format!("{{\"k\":\"tuple\",\"args\":[{}]}}", a.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"s\":{}}}", esc(p.name.as_str())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&tystr(t))),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", f, lo.line)
    }

    fn place(&self, p: &mir::Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.index());
        for e in p.projection.iter() {
            o.push(',');
            match e {
                mir::ProjectionElem::Deref => o.push_str("\"*\""),
                mir::ProjectionElem::Field(f, _) => {
                    let _ = write!(o, "{}", f.index());
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(o, "{{\"i\":{}}}", l.index());
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    let _ = write!(
                        o,
                        "{{\"ci\":{},\"fe\":{},\"ml\":{}}}",
                        offset, from_end, min_length
                    );
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end);
                }
                mir::ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        o,
                        "{{\"v\":{},\"n\":{}}}",
                        v.index(),
                        esc(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                    );
                }
                _ => o.push_str("\"~\""),
            }
        }
        o.push(']');
        o
    }

    fn constant(&self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tys = self.ty(t, 3);
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                return self.fnref(*d, args, env);
            }
            _ => {}
        }
        let mut name = String::new();
        let mut promoted = false;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            name = path(tcx, u.def);
            promoted = u.promoted.is_some();
        }
        let nm = if name.is_empty() {
            "null".to_string()
        } else {
            esc(&name)
        };
        if promoted {
            return format!("{{\"c\":\"promoted\",\"ty\":{},\"name\":{}}}", tys, nm);
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        if has_param {
            return format!(
                "{{\"c\":\"generic\",\"ty\":{},\"name\":{},\"s\":{}}}",
                tys,
                nm,
                esc(&format!("{}", c.const_))
            );
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                if let mir::ConstValue::ZeroSized = v {
                    return format!("{{\"c\":\"zst\",\"ty\":{},\"name\":{}}}", tys, nm);
                }
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let extra = match t.kind() {
                        ty::Float(ty::FloatTy::F64) => {
                            format!(",\"f\":{}", esc(&format!("{:?}", f64::from_bits(bits as u64))))
                        }
                        _ => String::new(),
                    };
                    return format!(
                        "{{\"c\":\"int\",\"bits\":\"{}\",\"size\":{},\"ty\":{},\"name\":{}{}}}",
                        bits,
                        size.bytes(),
                        tys,
                        nm,
                        extra
                    );
                }
                let is_str = matches!(t.kind(), ty::Ref(_, e, _) if e.is_str());
                if is_str {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(
                            "{{\"c\":\"str\",\"v\":{},\"ty\":{},\"name\":{}}}",
                            esc(&String::from_utf8_lossy(b)),
                            tys,
                            nm
                        );
                    }
                }
                // &[u8; N] byte strings (e.g. format_args templates)
                if let ty::Ref(_, e, _) = t.kind() {
                    if let ty::Array(el, n) = e.kind() {
                        if *el == tcx.types.u8 {
                            if let (Some(sc), Some(n)) =
                                (v.try_to_scalar(), n.try_to_target_usize(tcx))
                            {
                                if let Ok(ptr) = Ok::<_, ()>(sc.to_pointer(&tcx)) {
                                    if let Some(prov) = ptr.provenance {
                                        if let mir::interpret::GlobalAlloc::Memory(a) =
                                            tcx.global_alloc(prov.alloc_id())
                                        {
                                            let off = ptr.into_raw_parts().1.bytes() as usize;
                                            let by = a
                                                .inner()
                                                .inspect_with_uninit_and_ptr_outside_interpreter(
                                                    off..off + n as usize,
                                                );
                                            let v: Vec<String> =
                                                by.iter().map(|x| x.to_string()).collect();
                                            return format!(
                                                "{{\"c\":\"bytes\",\"v\":[{}],\"ty\":{},\"name\":{}}}",
                                                v.join(","),
                                                tys,
                                                nm
                                            );
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                format!(
                    "{{\"c\":\"val\",\"ty\":{},\"name\":{},\"s\":{}}}",
                    tys,
                    nm,
                    esc(&format!("{}", c.const_))
                )
            }
            Err(_) => format!(
                "{{\"c\":\"err\",\"ty\":{},\"name\":{},\"s\":{}}}",
                tys,
                nm,
                esc(&format!("{}", c.const_))
            ),
        }
    }

    fn fnref(
        &self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: ty::TypingEnv<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"c\":\"fn\",\"path\":{}", esc(&path(tcx, d)));
        let _ = write!(o, ",\"local\":{}", d.is_local());
        let a: Vec<String> = args.types().map(|x| self.ty(x, 4)).collect();
        let _ = write!(o, ",\"args\":[{}]", a.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&path(tcx, tr)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let selfty = tcx.type_of(im).skip_binder();
            let _ = write!(o, ",\"implself\":{}", self.ty(selfty, 2));
        }
        let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let _ = write!(
                    o,
                    ",\"res\":{{\"path\":{},\"kind\":\"{}\",\"local\":{}}}",
                    esc(&path(tcx, rd)),
                    kind,
                    rd.is_local()
                );
            }
        }
        o.push('}');
        o
    }

    fn operand(&self, op: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match op {
            mir::Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => self.constant(c, env),
            _ => format!("{{\"c\":\"rtcheck\"}}"),
        }
    }

    fn rvalue(
        &self,
        rv: &mir::Rvalue<'tcx>,
        env: ty::TypingEnv<'tcx>,
    ) -> String {
        use mir::Rvalue::*;
        match rv {
            Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, env)),
            Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(o, env),
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => esc(&format!("{}", n)),
                }
            ),
            Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"k\":\"{}\",\"p\":{}}}",
                match k {
                    mir::BorrowKind::Shared => "shared",
                    mir::BorrowKind::Fake(_) => "fake",
                    mir::BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                },
                self.place(p)
            ),
            RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(o, env),
                self.ty(*t, 3)
            ),
            BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                b,
                self.operand(&ops.0, env),
                self.operand(&ops.1, env)
            ),
            UnaryOp(u, o) => format!(
                "{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}",
                u,
                self.operand(o, env)
            ),
            Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x, env)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => "{\"a\":\"array\"}".to_string(),
                    mir::AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    mir::AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> =
                            var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"a\":\"adt\",\"path\":{},\"v\":{},\"vn\":{},\"fields\":[{}],\"enum\":{}}}",
                            esc(&path(self.tcx, *d)),
                            v.index(),
                            esc(var.name.as_str()),
                            names.join(","),
                            def.is_enum()
                        )
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        format!("{{\"a\":\"closure\",\"path\":{}}}", esc(&path(self.tcx, *d)))
                    }
                    other => format!("{{\"a\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"o\":[{}]}}", k, o.join(","))
            }
            CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(p)),
            Reborrow(_, m, p) => format!(
                "{{\"r\":\"ref\",\"k\":\"{}\",\"p\":{}}}",
                if m.is_mut() { "mut" } else { "shared" },
                self.place(p)
            ),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn body(&self, def: LocalDefId, b: &mir::Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def.to_def_id());
        let mut o = String::new();
        let kind = tcx.def_kind(def.to_def_id());
        let _ = write!(
            o,
            "{{\"path\":{},\"kind\":{},\"argc\":{},\"span\":{}",
            esc(&path(tcx, def.to_def_id())),
            esc(&format!("{:?}", kind)),
            b.arg_count,
            esc(&self.span(b.span))
        );
        if let Some(sa) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sa.index());
        }
        if let Some(im) = tcx.impl_of_assoc(def.to_def_id()) {
            let selfty = tcx.type_of(im).skip_binder();
            let _ = write!(o, ",\"implself\":{}", self.ty(selfty, 2));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let _ = write!(
                    o,
                    ",\"impltrait\":{}",
                    esc(&path(tcx, tr.skip_binder().def_id))
                );
            }
            let derived = tcx.is_automatically_derived(im);
            let _ = write!(o, ",\"derived\":{}", derived);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(def.to_def_id());
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            let ev = tcx.effective_visibilities(()).is_reachable(def);
            let _ = write!(o, ",\"reach\":{}", ev);
        }
        if matches!(kind, DefKind::Closure) {
            let parent = tcx.typeck_root_def_id_local(def);
            let _ = write!(o, ",\"parent\":{}", esc(&path(tcx, parent.to_def_id())));
        }
        o.push_str(",\"locals\":[");
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&self.ty(l.ty, 5));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = std::collections::BTreeSet::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local.index()) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.index(), esc(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cleanup\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    mir::StatementKind::Assign(a) => format!(
                        "{{\"p\":{},\"rv\":{},\"ln\":{}}}",
                        self.place(&a.0),
                        self.rvalue(&a.1, env),
                        esc(&self.span(s.source_info.span))
                    ),
                    mir::StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "{{\"setd\":{},\"v\":{}}}",
                        self.place(place),
                        variant_index.index()
                    ),
                    mir::StatementKind::StorageDead(l) => format!("{{\"sd\":{}}}", l.index()),
                    mir::StatementKind::StorageLive(l) => format!("{{\"sl\":{}}}", l.index()),
                    mir::StatementKind::Intrinsic(i) => {
                        format!("{{\"intr\":{}}}", esc(&format!("{:?}", i)))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let ln = esc(&self.span(term.source_info.span));
            use mir::TerminatorKind::*;
            let t = match &term.kind {
                Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}", target.index()),
                SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.index()))
                        .collect();
                    let dt = discr.ty(&b.local_decls, tcx);
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"v\":[{}],\"else\":{}",
                        self.operand(discr, env),
                        self.ty(dt, 2),
                        v.join(","),
                        targets.otherwise().index()
                    )
                }
                UnwindResume => "{\"t\":\"resume\"".to_string(),
                UnwindTerminate(_) => "{\"t\":\"terminate\"".to_string(),
                Return => "{\"t\":\"return\"".to_string(),
                Unreachable => "{\"t\":\"unreachable\"".to_string(),
                Drop { place, target, .. } => format!(
                    "{{\"t\":\"drop\",\"p\":{},\"b\":{}",
                    self.place(place),
                    target.index()
                ),
                Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"p\":{},\"b\":{}",
                        self.operand(func, env),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into())
                    )
                }
                Assert { cond, expected, target, msg, .. } => {
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) => "div0",
                        mir::AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{},\"k\":\"{}\",\"b\":{}",
                        self.operand(cond, env),
                        expected,
                        k,
                        target.index()
                    )
                }
                FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"b\":{}", real_target.index())
                }
                FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"b\":{}", real_target.index())
                }
                other => format!("{{\"t\":\"other\",\"s\":{}", esc(&format!("{:?}", other))),
            };
            o.push_str(&t);
            let _ = write!(o, ",\"ln\":{}}}}}", ln);
        }
        o.push_str("]}");
        o
    }

    fn items(&self) -> String {
        let tcx = self.tcx;
        let mut adts = vec![];
        let mut fns = vec![];
        let mut uns: Vec<String> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).skip_binder();
                                let vis = tcx.visibility(f.did);
                                format!(
                                    "{{\"n\":{},\"ty\":{},\"s\":{},\"pub\":{}}}",
                                    esc(f.name.as_str()),
                                    self.ty(t, 6),
                                    esc(&tystr(t)),
                                    vis.is_public()
                                )
                            })
                            .collect();
                        vs.push(format!(
                            "{{\"n\":{},\"fields\":[{}]}}",
                            esc(v.name.as_str()),
                            fs.join(",")
                        ));
                    }
                    adts.push(format!(
                        "{{\"path\":{},\"enum\":{},\"variants\":[{}],\"span\":{}}}",
                        esc(&path(tcx, did)),
                        def.is_enum(),
                        vs.join(","),
                        esc(&self.span(tcx.def_span(did)))
                    ));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).skip_binder().skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t, 4)).collect();
                    fns.push(format!(
                        "{{\"path\":{},\"in\":[{}],\"out\":{},\"pub\":{},\"span\":{}}}",
                        esc(&path(tcx, did)),
                        ins.join(","),
                        self.ty(sig.output(), 4),
                        tcx.visibility(did).is_public(),
                        esc(&self.span(tcx.def_span(did)))
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(did);
                    if !h.safety.is_safe() && !tcx.is_automatically_derived(did) {
                        uns.push(format!(
                            "{{\"what\":{},\"span\":{}}}",
                            esc(&path(tcx, did)),
                            esc(&self.span(tcx.def_span(did)))
                        ));
                    }
                }
                DefKind::ForeignMod => uns.push(format!(
                    "{{\"what\":\"foreign functions\",\"span\":{}}}",
                    esc(&self.span(tcx.def_span(did)))
                )),
                DefKind::Static { mutability, .. } if mutability.is_mut() => uns.push(format!(
                    "{{\"what\":{},\"span\":{}}}",
                    esc(&format!("static mut {}", path(tcx, did))),
                    esc(&self.span(tcx.def_span(did)))
                )),
                _ => {}
            }
        }
        format!(
            "\"adts\":[{}],\"fns\":[{}],\"unsafe_items\":[{}]",
            adts.join(",\n"),
            fns.join(",\n"),
            uns.join(",\n")
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        // copy every body before anything can steal it
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            let k = tcx.def_kind(d.to_def_id());
            if !matches!(
                k,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            ) {
                continue;
            }
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                continue;
            }
            let b = tcx.mir_built(d);
            bodies.push((d, b.borrow().clone()));
        }
        tcx.dcx().abort_if_errors();
        let cx = Cx { tcx };
        let mut o = String::new();
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let ctype = format!("{:?}", tcx.crate_types());
        let _ = write!(
            o,
            "{{\"crate\":{},\"type\":{},\"da\":{},\n{},\n\"bodies\":[\n",
            esc(&cname),
            esc(&ctype),
            tcx.sess.opts.debug_assertions,
            cx.items()
        );
        for (i, (d, b)) in bodies.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push_str(&cx.body(*d, b));
        }
        o.push_str("\n]}\n");
        let kind = if ctype.contains("Executable") { "bin" } else { "lib" };
        let f = format!("{}/{}-{}.json", self.out, cname, kind);
        std::fs::write(&f, o).expect("cannot write the MIR export");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("PNC_OUT").unwrap_or_default();
    let is_info = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if out.is_empty() || is_info {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    }
}
