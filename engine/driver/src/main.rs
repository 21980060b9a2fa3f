#![feature(rustc_private)]
#![allow(clippy::all)]
//! Facts extractor: dumps the resolved, un-optimised MIR (mir_built) of every body in the crate,
//! plus type definitions, as JSON lines in $FACTS_OUT/<crate>.jsonl.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::fmt::Write as _;
use std::io::Write as _;

struct J(String);
impl J {
    fn s(&mut self, v: &str) {
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\r' => self.0.push_str("\\r"),
                '\t' => self.0.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn raw(&mut self, v: &str) {
        self.0.push_str(v)
    }
    fn key(&mut self, k: &str) {
        if !self.0.ends_with('{') {
            self.0.push(',');
        }
        self.s(k);
        self.0.push(':');
    }
    fn kv(&mut self, k: &str, v: &str) {
        self.key(k);
        self.s(v);
    }
    fn ki(&mut self, k: &str, v: i128) {
        self.key(k);
        let _ = write!(self.0, "{}", v);
    }
    fn arr<T>(&mut self, it: impl Iterator<Item = T>, mut f: impl FnMut(&mut J, T)) {
        self.0.push('[');
        let mut first = true;
        for x in it {
            if !first {
                self.0.push(',');
            }
            first = false;
            f(self, x);
        }
        self.0.push(']');
    }
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

/// Base type name without generic arguments.
fn tybase<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => path(tcx, d.did()),
        ty::Ref(_, t, _) => format!("&{}", tybase(tcx, *t)),
        ty::RawPtr(t, _) => format!("*{}", tybase(tcx, *t)),
        ty::Slice(t) => format!("[{}]", tybase(tcx, *t)),
        ty::Array(t, _) => format!("[{};_]", tybase(tcx, *t)),
        ty::Tuple(ts) => format!("({})", ts.iter().map(|t| tybase(tcx, t)).collect::<Vec<_>>().join(",")),
        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::FnDef(d, _) | ty::CoroutineClosure(d, _) => path(tcx, *d),
        ty::Dynamic(..) | ty::Param(_) => tystr(t),
        _ => tystr(t),
    }
}

/// Identity of a definition, the same in every crate.
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{:?}", tcx.def_path_hash(d).0)
}
/// Stable, generic-free path of a definition.
fn path<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> String {
    use rustc_hir::definitions::DefPathData as D;
    let key = tcx.def_key(did);
    let parent = match key.parent {
        None => return tcx.crate_name(did.krate).to_string(),
        Some(p) => DefId { krate: did.krate, index: p },
    };
    match key.disambiguated_data.data {
        D::Impl => {
            let st = tybase(tcx, tcx.type_of(did).instantiate_identity().skip_norm_wip());
            match tcx.impl_opt_trait_ref(did) {
                Some(tr) => format!("<{} as {}>", st, path(tcx, tr.skip_binder().def_id)),
                None => st,
            }
        }
        D::ForeignMod => path(tcx, parent),
        D::Ctor => format!("{}::{{ctor}}", path(tcx, parent)),
        D::Closure => format!("{}::{{closure#{}}}", path(tcx, parent), key.disambiguated_data.disambiguator),
        D::AnonConst => format!("{}::{{const#{}}}", path(tcx, parent), key.disambiguated_data.disambiguator),
        D::OpaqueTy => format!("{}::{{opaque}}", path(tcx, parent)),
        _ => match key.disambiguated_data.data.get_opt_name() {
            Some(n) => {
                if key.disambiguated_data.disambiguator > 0 && matches!(key.disambiguated_data.data, D::ValueNs(_)) {
                    format!("{}::{}#{}", path(tcx, parent), n, key.disambiguated_data.disambiguator)
                } else {
                    format!("{}::{}", path(tcx, parent), n)
                }
            }
            None => format!("{}::{}", path(tcx, parent), key.disambiguated_data.as_sym(true)),
        },
    }
}

struct Cx<'tcx, 'b> {
    tcx: TyCtxt<'tcx>,
    body: &'b Body<'tcx>,
    env: TypingEnv<'tcx>,
}

fn macros(sp: Span) -> Vec<String> {
    let mut out = vec![];
    let mut sp = sp;
    for _ in 0..24 {
        if !sp.from_expansion() {
            break;
        }
        let e = sp.ctxt().outer_expn_data();
        match e.kind {
            ExpnKind::Macro(_, name) => out.push(name.to_string()),
            ExpnKind::Desugaring(k) => out.push(format!("~{}", k.descr())),
            _ => {}
        }
        sp = e.call_site;
    }
    out
}

impl<'tcx, 'b> Cx<'tcx, 'b> {
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn place(&self, j: &mut J, p: &Place<'tcx>) {
        let _ = write!(j.0, "[{},", p.local.as_usize());
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        j.0.push('[');
        let mut first = true;
        for el in p.projection.iter() {
            if !first {
                j.0.push(',');
            }
            first = false;
            match el {
                ProjectionElem::Deref => j.raw("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = if let Some(vi) = pty.variant_index {
                                Some(d.variant(vi))
                            } else if d.is_enum() {
                                None
                            } else {
                                Some(d.non_enum_variant())
                            };
                            v.map(|v| v.fields[f].name.to_string()).unwrap_or_else(|| f.as_usize().to_string())
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => self.upvar_name(*d, f.as_usize()),
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pty.ty.kind() {
                        ty::Adt(d, _) => path(self.tcx, d.did()),
                        ty::Tuple(_) => "()".to_string(),
                        ty::Closure(..) | ty::Coroutine(..) | ty::CoroutineClosure(..) => "{closure}".to_string(),
                        _ => "?".to_string(),
                    };
                    j.raw("[\"f\",");
                    let _ = write!(j.0, "{},", f.as_usize());
                    j.s(&name);
                    j.raw(",");
                    j.s(&owner);
                    j.raw("]");
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(j.0, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(j.0, "[\"ci\",{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(j.0, "[\"ss\",{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = name.map(|n| n.to_string()).unwrap_or_default();
                    j.raw("[\"d\",");
                    let _ = write!(j.0, "{},", v.as_usize());
                    j.s(&n);
                    j.raw("]");
                }
                _ => j.raw("[\"?\"]"),
            }
            pty = pty.projection_ty(self.tcx, el);
        }
        j.raw("]]");
    }
    fn upvar_name(&self, d: DefId, i: usize) -> String {
        if let Some(l) = d.as_local() {
            let caps = self.tcx.closure_captures(l);
            if let Some(c) = caps.get(i) {
                return c.to_string(self.tcx);
            }
        }
        format!("up{}", i)
    }
    fn konst(&self, j: &mut J, c: &Const<'tcx>, sp: Span) {
        let t = c.ty();
        j.raw("{\"c\":{");
        j.kv("ty", &tystr(t));
        if let ty::FnDef(d, args) = t.kind() {
            self.callee(j, *d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            j.raw("}}");
            return;
        }
        if let Const::Unevaluated(u, _) = c {
            j.kv("def", &path(self.tcx, u.def));
        }
        // `Self`-dependent consts cannot be evaluated in a generic context
        let mut txt = None;
        let generic = match c {
            Const::Unevaluated(u, _) => u.args.iter().any(|a| format!("{:?}", a).contains('#')),
            Const::Ty(..) => true,
            _ => false,
        };
        if !generic {
            if let Some(b) = c.try_eval_bits(self.tcx, self.env) {
                let (signed, size) = match t.kind() {
                    ty::Int(i) => (true, i.bit_width().unwrap_or(64)),
                    _ => (false, 0),
                };
                if signed && size < 128 {
                    let sh = 128 - size;
                    let v = ((b as i128) << sh) >> sh;
                    j.kv("v", &v.to_string());
                } else {
                    j.kv("v", &b.to_string());
                }
                if matches!(t.kind(), ty::Float(_)) {
                    txt = Some(with_no_trimmed_paths!(format!("{}", c)));
                }
            } else if let Ok(v) = c.eval(self.tcx, self.env, sp) {
                let is_slice = matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Str | ty::Slice(_)));
                let sl = if is_slice { v.try_get_slice_bytes_for_diagnostics(self.tcx) } else { None };
                if let Some(b) = sl {
                    j.kv("str", &String::from_utf8_lossy(b));
                } else {
                    txt = Some(with_no_trimmed_paths!(format!("{}", Const::Val(v, t))));
                }
            }
        }
        if txt.is_none() && generic {
            txt = Some(with_no_trimmed_paths!(format!("{}", c)));
        }
        if let Some(x) = txt {
            j.kv("txt", &x);
        }
        j.raw("}}");
    }
    /// The conversion a blanket impl forwards to: `Into`/`TryInto` to `From`/`TryFrom`, `str::parse` to `FromStr`.
    fn forwarded(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let (tr, swap) = match path(tcx, d).as_str() {
            "core::convert::Into::into" => ("From", true),
            "core::convert::TryInto::try_into" => ("TryFrom", true),
            "core::str::parse" | "str::parse" => ("", false),
            _ => return None,
        };
        let tr = if swap {
            tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?
        } else {
            tcx.param_env(d).caller_bounds().filter_map(|p| p.as_trait_clause())
                .map(|t| t.def_id()).find(|t| path(tcx, *t).ends_with("FromStr"))?
        };
        let f = *tcx.associated_item_def_ids(tr).iter().find(|x| matches!(tcx.def_kind(**x), DefKind::AssocFn))?;
        let tys: Vec<_> = args.types().collect();
        let nargs = if swap {
            if tys.len() < 2 {
                return None;
            }
            tcx.mk_args(&[tys[1].into(), tys[0].into()])
        } else {
            tcx.mk_args(&[(*tys.last()?).into()])
        };
        let e = tcx.erase_and_anonymize_regions(nargs);
        match Instance::try_resolve(tcx, self.env, f, e) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Item(x) if x != f => Some((f, nargs)),
                _ => None,
            },
            _ => None,
        }
    }
    fn callee(&self, j: &mut J, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        if let Some((f, a)) = self.forwarded(d, args) {
            j.kv("via", &path(tcx, d));
            return self.callee(j, f, a);
        }
        j.kv("decl", &path(tcx, d));
        let mut resolved = None;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            j.kv("trait", &path(tcx, tr));
            if args.len() > 0 {
                if let Some(st) = args.types().next() {
                    j.kv("self", &tystr(st));
                    j.kv("selfb", &tybase(tcx, st));
                }
            }
            let e_args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, e_args) {
                match inst.def {
                    ty::InstanceKind::Item(x) => {
                        if x != d {
                            resolved = Some(x);
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Some(r) = resolved {
            j.kv("fn", &path(tcx, r));
            j.kv("fu", &uid(tcx, r));
        }
        if args.len() > 0 {
            j.key("ga");
            j.arr(args.iter(), |j, a| j.s(&with_no_trimmed_paths!(format!("{}", a))));
        }
    }
    fn operand(&self, j: &mut J, o: &Operand<'tcx>, sp: Span) {
        match o {
            Operand::Copy(p) => {
                j.raw("{\"cp\":");
                self.place(j, p);
                j.raw("}");
            }
            Operand::Move(p) => {
                j.raw("{\"mv\":");
                self.place(j, p);
                j.raw("}");
            }
            Operand::Constant(c) => self.konst(j, &c.const_, sp),
            _ => j.raw("{\"c\":{\"ty\":\"bool\",\"rt\":1}}"),
        }
    }
    fn rvalue(&self, j: &mut J, r: &Rvalue<'tcx>, sp: Span) {
        match r {
            Rvalue::Use(o, ..) => {
                j.raw("[\"use\",");
                self.operand(j, o, sp);
                j.raw("]");
            }
            Rvalue::Repeat(o, n) => {
                j.raw("[\"rep\",");
                self.operand(j, o, sp);
                j.raw(",");
                j.s(&with_no_trimmed_paths!(format!("{}", n)));
                j.raw("]");
            }
            Rvalue::Ref(_, k, p) => {
                j.raw("[\"ref\",");
                j.s(match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "m",
                    #[allow(unreachable_patterns)]
                    _ => "p",
                });
                j.raw(",");
                self.place(j, p);
                j.raw("]");
            }
            Rvalue::RawPtr(_, p) => {
                j.raw("[\"ref\",\"raw\",");
                self.place(j, p);
                j.raw("]");
            }
            Rvalue::Cast(k, o, t) => {
                j.raw("[\"cast\",");
                j.s(&format!("{:?}", k).split('(').next().unwrap_or("").to_string());
                j.raw(",");
                self.operand(j, o, sp);
                j.raw(",");
                j.s(&tystr(*t));
                j.raw("]");
            }
            Rvalue::BinaryOp(op, b) => {
                j.raw("[\"bin\",");
                j.s(&format!("{:?}", op));
                j.raw(",");
                self.operand(j, &b.0, sp);
                j.raw(",");
                self.operand(j, &b.1, sp);
                j.raw("]");
            }
            Rvalue::UnaryOp(op, o) => {
                j.raw("[\"un\",");
                j.s(&format!("{:?}", op));
                j.raw(",");
                self.operand(j, o, sp);
                j.raw("]");
            }
            Rvalue::Discriminant(p) => {
                j.raw("[\"discr\",");
                self.place(j, p);
                j.raw(",");
                let t = p.ty(self.body, self.tcx).ty;
                j.s(&tybase(self.tcx, t));
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        j.raw(",");
                        let ds: Vec<(u128, String)> =
                            ad.discriminants(self.tcx).map(|(v, d)| (d.val, ad.variant(v).name.to_string())).collect();
                        j.arr(ds.iter(), |j, (d, n)| {
                            let _ = write!(j.0, "[\"{}\",", d);
                            j.s(n);
                            j.raw("]");
                        });
                    }
                }
                j.raw("]");
            }
            Rvalue::Aggregate(k, ops) => {
                j.raw("[\"agg\",");
                let mut names: Option<Vec<String>> = None;
                match &**k {
                    AggregateKind::Array(_) => j.raw("\"array\",\"\""),
                    AggregateKind::Tuple => j.raw("\"tuple\",\"\""),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        j.s(&path(self.tcx, *d));
                        j.raw(",");
                        j.s(if ad.is_enum() { var.name.as_str() } else { "" });
                        names = Some(match active {
                            Some(f) => vec![var.fields[*f].name.to_string()],
                            None => var.fields.iter().map(|f| f.name.to_string()).collect(),
                        });
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        j.raw("\"closure\",");
                        j.s(&path(self.tcx, *d));
                        names = Some((0..ops.len()).map(|i| self.upvar_name(*d, i)).collect());
                    }
                    _ => j.raw("\"other\",\"\""),
                }
                j.raw(",");
                j.arr(ops.iter(), |j, o| self.operand(j, o, sp));
                if let Some(n) = names {
                    j.raw(",");
                    j.arr(n.iter(), |j, n| j.s(n));
                }
                if let AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) = &**k {
                    j.raw(",");
                    j.s(&uid(self.tcx, *d));
                }
                j.raw("]");
            }
            Rvalue::CopyForDeref(p) => {
                j.raw("[\"use\",{\"cp\":");
                self.place(j, p);
                j.raw("}]");
            }
            Rvalue::Reborrow(_, _, p) => {
                j.raw("[\"ref\",\"s\",");
                self.place(j, p);
                j.raw("]");
            }
            _ => {
                j.raw("[\"other\",");
                j.s(&format!("{:?}", r));
                j.raw("]");
            }
        }
    }
    fn span(&self, j: &mut J, sp: Span) {
        let _ = write!(j.0, ",\"l\":{}", self.line(sp));
        let m = macros(sp);
        if !m.is_empty() {
            j.raw(",\"m\":");
            j.arr(m.iter(), |j, m| j.s(m));
        }
    }
    fn term(&self, j: &mut J, t: &Terminator<'tcx>) {
        let sp = t.source_info.span;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                let _ = write!(j.0, "{{\"k\":\"goto\",\"to\":{}", target.as_usize());
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                let _ = write!(j.0, "{{\"k\":\"goto\",\"to\":{}", real_target.as_usize());
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                let _ = write!(j.0, "{{\"k\":\"goto\",\"to\":{}", real_target.as_usize());
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                j.raw("{\"k\":\"switch\",\"on\":");
                self.operand(j, discr, sp);
                j.kv("ty", &tystr(discr.ty(self.body, self.tcx)));
                j.raw(",\"arms\":");
                j.arr(targets.iter(), |j, (v, b)| {
                    let _ = write!(j.0, "[\"{}\",{}]", v, b.as_usize());
                });
                let _ = write!(j.0, ",\"else\":{}", targets.otherwise().as_usize());
            }
            TerminatorKind::Return => j.raw("{\"k\":\"ret\""),
            TerminatorKind::Drop { place, target, .. } => {
                j.raw("{\"k\":\"drop\",\"p\":");
                self.place(j, place);
                let _ = write!(j.0, ",\"to\":{}", target.as_usize());
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                j.raw("{\"k\":\"call\",\"f\":");
                self.operand(j, func, sp);
                j.raw(",\"a\":");
                j.arr(args.iter(), |j, a| self.operand(j, &a.node, sp));
                j.raw(",\"d\":");
                self.place(j, destination);
                if let Some(t) = target {
                    let _ = write!(j.0, ",\"to\":{}", t.as_usize());
                }
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                j.raw("{\"k\":\"assert\",\"c\":");
                self.operand(j, cond, sp);
                let _ = write!(j.0, ",\"e\":{},\"to\":{}", *expected as u8, target.as_usize());
                j.kv("msg", &format!("{:?}", msg).split('(').next().unwrap_or("").to_string());
            }
            TerminatorKind::Yield { resume, .. } => {
                let _ = write!(j.0, "{{\"k\":\"yield\",\"to\":{}", resume.as_usize());
            }
            TerminatorKind::Unreachable => j.raw("{\"k\":\"unreach\""),
            _ => j.raw("{\"k\":\"end\""),
        }
        self.span(j, sp);
        j.raw("}");
    }
    fn emit(&self, j: &mut J, did: LocalDefId) {
        let tcx = self.tcx;
        let body = self.body;
        j.raw("{");
        j.kv("t", "body");
        j.kv("path", &path(tcx, did.to_def_id()));
        j.kv("kind", &format!("{:?}", tcx.def_kind(did)).split([' ', '{']).next().unwrap_or("").to_string());
        j.kv("uid", &uid(tcx, did.to_def_id()));
        if let Some(k) = tcx.coroutine_kind(did.to_def_id()) {
            j.kv("cor", &format!("{:?}", k));
        }
        let lo = tcx.sess.source_map().lookup_char_pos(body.span.lo());
        j.kv("file", &format!("{}", lo.file.name.prefer_local_unconditionally()));
        j.ki("line", lo.line as i128);
        let parent = tcx.local_parent(did);
        if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
            j.kv("selfty", &tybase(tcx, tcx.type_of(parent).instantiate_identity().skip_norm_wip()));
            if of_trait {
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    j.kv("trait", &path(tcx, tr.skip_binder().def_id));
                }
            }
            if tcx.is_automatically_derived(parent.to_def_id()) {
                j.ki("derived", 1);
            }
        } else if tcx.def_kind(parent) == DefKind::Trait {
            j.kv("intrait", &path(tcx, parent.to_def_id()));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            j.ki("pub", tcx.visibility(did).is_public() as i128);
            j.kv("ret", &tystr(body.local_decls[RETURN_PLACE].ty));
            j.ki("async", tcx.asyncness(did).is_async() as i128);
        }
        j.ki("argc", body.arg_count as i128);
        j.key("locals");
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut vnames: Vec<(String, Place<'tcx>)> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names[l.as_usize()].get_or_insert(v.name.to_string());
                } else {
                    vnames.push((v.name.to_string(), p));
                }
            }
        }
        j.arr(body.local_decls.iter_enumerated(), |j, (l, d)| {
            j.raw("{");
            let user = matches!(d.local_info, ClearCrossCrate::Set(_)) && d.is_user_variable();
            j.kv("ty", &tystr(d.ty));
            j.kv("tb", &tybase(tcx, d.ty));
            if let Some(n) = &names[l.as_usize()] {
                j.kv("n", n);
            }
            if user && d.mutability == Mutability::Mut {
                j.ki("mut", 1);
            }
            if user {
                j.ki("u", 1);
            }
            j.raw("}");
        });
        j.key("vdi");
        j.arr(vnames.iter(), |j, (n, p)| {
            j.raw("[");
            j.s(n);
            j.raw(",");
            self.place(j, p);
            j.raw("]");
        });
        j.key("bbs");
        j.arr(body.basic_blocks.iter(), |j, b| {
            j.raw("{");
            if b.is_cleanup {
                j.ki("c", 1);
                j.raw("}");
                return;
            }
            j.key("s");
            let mut first = true;
            j.raw("[");
            for st in &b.statements {
                let sp = st.source_info.span;
                match &st.kind {
                    StatementKind::Assign(bx) => {
                        if !first {
                            j.raw(",");
                        }
                        first = false;
                        j.raw("{\"d\":");
                        self.place(j, &bx.0);
                        j.raw(",\"r\":");
                        self.rvalue(j, &bx.1, sp);
                        self.span(j, sp);
                        j.raw("}");
                    }
                    StatementKind::StorageDead(l) => {
                        if !first {
                            j.raw(",");
                        }
                        first = false;
                        let _ = write!(j.0, "{{\"sd\":{}}}", l.as_usize());
                    }
                    _ => {}
                }
            }
            j.raw("]");
            j.key("x");
            self.term(j, b.terminator());
            j.raw("}");
        });
        j.raw("}\n");
    }
}

/// mir_built is a stealable query: proving auto traits of an async function's future consumes its body before the dump reaches
/// it.  Every body is therefore copied at the moment it is computed.
static ORIG: std::sync::OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>> = std::sync::OnceLock::new();
thread_local! {
    static KEPT: std::cell::RefCell<std::collections::HashMap<LocalDefId, Body<'static>>> = Default::default();
}

fn keep_built<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let st = (ORIG.get().expect("provider"))(tcx, did);
    let b: Body<'tcx> = st.borrow().clone();
    // SAFETY: read back only while the same TyCtxt is alive
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    KEPT.with(|k| k.borrow_mut().insert(did, b));
    st
}

fn kept<'tcx>(_tcx: TyCtxt<'tcx>, did: LocalDefId) -> Option<Body<'tcx>> {
    KEPT.with(|k| k.borrow().get(&did).map(|b| unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b.clone()) }))
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = keep_built;
        });
    }

    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("FACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        if std::env::var("CARGO_MANIFEST_DIR").map(|d| d.contains("/stubs/")).unwrap_or(true) {
            return Compilation::Continue;
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut bodies = vec![];
        let mut owners = vec![];
        for did in tcx.hir_body_owners() {
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            owners.push((did, kind));
        }
        // constants and const fns first: evaluating one steals its mir_built
        owners.sort_by_key(|(d, k)| match k {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => 0,
            DefKind::Fn | DefKind::AssocFn if tcx.is_const_fn(d.to_def_id()) => 1,
            _ => 2,
        });
        for (did, kind) in owners {
            let st = tcx.mir_built(did);
            let b = if !st.is_stolen() {
                st.borrow().clone()
            } else {
                match kind {
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => tcx.mir_for_ctfe(did).clone(),
                    DefKind::Fn | DefKind::AssocFn if tcx.is_const_fn(did.to_def_id()) => tcx.mir_for_ctfe(did).clone(),
                    _ => match kept(tcx, did) {
                        Some(b) => b,
                        None => tcx.mir_drops_elaborated_and_const_checked(did).borrow().clone(),
                    },
                }
            };
            bodies.push((did, b));
        }
        let f = std::fs::File::create(format!("{}/{}.jsonl.tmp", out, name)).expect("facts file");
        let mut f = std::io::BufWriter::new(f);
        // types
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if matches!(k, DefKind::Struct | DefKind::Enum) {
                let ad = tcx.adt_def(id);
                let mut j = J(String::from("{"));
                j.kv("t", if ad.is_enum() { "enum" } else { "struct" });
                j.kv("path", &path(tcx, id.to_def_id()));
                let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(id).lo());
                j.kv("file", &format!("{}", lo.file.name.prefer_local_unconditionally()));
                j.ki("line", lo.line as i128);
                j.key("variants");
                let discrs: Vec<u128> = if ad.is_enum() { ad.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
                j.arr(ad.variants().iter().zip(discrs), |j, (v, d)| {
                    j.raw("{");
                    j.kv("n", v.name.as_str());
                    j.kv("d", &d.to_string());
                    j.key("f");
                    j.arr(v.fields.iter(), |j, fd| {
                        j.raw("[");
                        j.s(fd.name.as_str());
                        j.raw(",");
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        j.s(&tystr(t));
                        j.raw(",");
                        j.s(if tcx.visibility(fd.did).is_public() { "pub" } else { "" });
                        j.raw("]");
                    });
                    j.raw("}");
                });
                j.raw("}\n");
                let _ = f.write_all(j.0.as_bytes());
            } else if matches!(k, DefKind::Impl { of_trait: true }) {
                let mut j = J(String::from("{"));
                j.kv("t", "impl");
                let tr = tcx.impl_trait_ref(id.to_def_id()).skip_binder();
                j.kv("trait", &path(tcx, tr.def_id));
                j.kv("self", &tybase(tcx, tcx.type_of(id).instantiate_identity().skip_norm_wip()));
                j.key("m");
                j.arr(tcx.associated_item_def_ids(id.to_def_id()).iter(), |j, d| j.s(&path(tcx, *d)));
                j.raw("}\n");
                let _ = f.write_all(j.0.as_bytes());
            }
        }
        for (did, b) in &bodies {
            let cx = Cx { tcx, body: b, env: TypingEnv::non_body_analysis(tcx, did.to_def_id()) };
            let mut j = J(String::new());
            cx.emit(&mut j, *did);
            let _ = f.write_all(j.0.as_bytes());
        }
        f.flush().expect("flush");
        std::fs::rename(format!("{}/{}.jsonl.tmp", out, name), format!("{}/{}.jsonl", out, name)).expect("rename");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    args.push("--cap-lints=allow".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
