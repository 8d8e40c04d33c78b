//! Fact extractor: a rustc driver that, for every workspace crate, dumps the
//! type-resolved program (MIR as built from the source, ADT definitions, trait
//! impls) in a compact line-oriented form. It performs no judgement itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name, PrintTraitRefExt};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::hygiene::{ExpnKind, MacroKind};
use rustc_span::Span;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static mut ORIG: Option<MirBuilt> = None;

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let orig = unsafe { ORIG.expect("orig provider") };
    let r = orig(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| {
        m.borrow_mut().insert(def, b);
    });
    r
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| unsafe {
            ORIG = Some(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

#[derive(Default)]
struct Strs {
    map: HashMap<String, usize>,
    list: Vec<String>,
}
impl Strs {
    fn get(&mut self, s: &str) -> usize {
        if let Some(i) = self.map.get(s) {
            return *i;
        }
        let i = self.list.len();
        self.map.insert(s.to_owned(), i);
        self.list.push(s.to_owned());
        i
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    s: Strs,
    xenums: HashMap<DefId, ()>,
    tycache: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn pid(&mut self, d: DefId) -> usize {
        let p = self.path(d);
        self.s.get(&p)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tycache.get(&t) {
            return *i;
        }
        let st = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))));
        let i = self.s.get(&st);
        let _ = self.tycache.insert(t, i);
        i
    }
    fn spaninfo(&mut self, sp: Span) -> (usize, usize) {
        let sm = self.tcx.sess.source_map();
        let mut tag = String::new();
        if sp.from_expansion() {
            for e in sp.macro_backtrace() {
                match e.kind {
                    ExpnKind::Macro(k, name) => {
                        let pre = match k {
                            MacroKind::Derive => "D",
                            MacroKind::Attr => "A",
                            MacroKind::Bang => "m",
                        };
                        tag = format!("{}:{}", pre, name);
                    }
                    _ => {}
                }
            }
            if tag.is_empty() {
                if let ExpnKind::Desugaring(k) = sp.ctxt().outer_expn_data().kind {
                    tag = format!("d:{:?}", k);
                    if let Some(i) = tag.find('(') {
                        tag.truncate(i);
                    }
                    if let Some(i) = tag.find(' ') {
                        tag.truncate(i);
                    }
                }
            }
        }
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        (lo.line, self.s.get(&tag))
    }

    fn note_enum(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(ad, _) = t.kind() {
            if ad.is_enum() {
                self.xenums.insert(ad.did(), ());
            }
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = String::from("[");
        let _ = write!(o, "{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",0"),
                ProjectionElem::Field(f, _) => {
                    let st = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = match pt.variant_index {
                                Some(v) => ad.variant(v),
                                None if !ad.is_enum() => ad.non_enum_variant(),
                                None => ad.variant(rustc_abi::FIRST_VARIANT),
                            };
                            let fname = v.fields[f].name;
                            let p = self.path(ad.did());
                            if ad.is_enum() {
                                format!("{}::{}.{}", p, v.name, fname)
                            } else {
                                format!("{}.{}", p, fname)
                            }
                        }
                        ty::Closure(..) | ty::Coroutine(..) | ty::CoroutineClosure(..) => {
                            format!("^{}", f.as_u32())
                        }
                        _ => format!("#{}", f.as_u32()),
                    };
                    let i = self.s.get(&st);
                    let _ = write!(o, ",{}", i);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { .. } => {
                    o.push_str(",[]");
                }
                ProjectionElem::Subslice { .. } => o.push_str(",[]"),
                ProjectionElem::Downcast(_, v) => {
                    if let ty::Adt(ad, _) = pt.ty.kind() {
                        let st = format!("@{}::{}", self.path(ad.did()), ad.variant(v).name);
                        let i = self.s.get(&st);
                        let _ = write!(o, ",{}", i);
                    }
                }
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn operand(&mut self, body: &Body<'tcx>, owner: DefId, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => self.place(body, p),
            Operand::Move(p) => self.place(body, p),
            Operand::Constant(c) => self.constant(owner, &c.const_, c.span),
            _ => "{\"k\":\"rt\"}".to_string(),
        }
    }

    fn constant(&mut self, owner: DefId, c: &mir::Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let (cal, orig, st, ia) = self.resolve(owner, *d, args.skip_binder());
            let mut o = format!("{{\"k\":\"fn\",\"c\":{},\"t\":{},\"s\":{}", cal, orig, st);
            if !ia.is_empty() {
                let l: Vec<String> = ia.iter().map(|x| x.to_string()).collect();
                let _ = write!(o, ",\"ia\":[{}]", l.join(","));
            }
            o.push('}');
            return o;
        }
        let mut name = None;
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = Some(self.path(u.def));
            }
        }
        let tyi = self.ty(t);
        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
        let mut val: Option<String> = None;
        let evaluable = match c {
            mir::Const::Val(..) => true,
            mir::Const::Unevaluated(u, _) => u.args.is_empty(),
            mir::Const::Ty(_, k) => matches!(k.kind(), ty::ConstKind::Value(..)),
        };
        if evaluable {
            if let Ok(cv) = c.eval(self.tcx, env, span) {
                let inner = t.peel_refs();
                if inner.is_str() && t.is_ref() {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        val = Some(js(&String::from_utf8_lossy(b)));
                    }
                } else if let Some(pieces) = self.template(t, &cv) {
                    val = Some(js(&format!("\u{2}{}", pieces.join("\u{1}"))));
                } else if let Some(sc) = cv.try_to_scalar() {
                    match sc {
                        rustc_middle::mir::interpret::Scalar::Int(i) => {
                            let v = match t.kind() {
                                ty::Int(_) => format!("{}", i.to_int(i.size())),
                                ty::Bool => format!("{}", i.to_uint(i.size()) != 0),
                                ty::Float(_) => format!("\"f{}\"", i.to_uint(i.size())),
                                _ => format!("{}", i.to_uint(i.size())),
                            };
                            val = Some(v);
                        }
                        rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                            let aid = p.provenance.alloc_id();
                            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                                self.tcx.try_get_global_alloc(aid)
                            {
                                name = Some(format!("static {}", self.path(d)));
                            }
                        }
                    }
                }
            }
        }
        let mut o = format!("{{\"k\":\"c\",\"ty\":{}", tyi);
        if let Some(n) = name {
            let i = self.s.get(&n);
            let _ = write!(o, ",\"n\":{}", i);
        }
        if let Some(v) = val {
            let _ = write!(o, ",\"v\":{}", v);
        }
        o.push('}');
        o
    }

    /// the literal pieces of a format string, if the constant is an encoded one
    fn template(&self, t: Ty<'tcx>, cv: &mir::ConstValue) -> Option<Vec<String>> {
        let ty::Ref(_, inner, _) = t.kind() else { return None };
        let ty::Array(el, n) = inner.kind() else { return None };
        if *el != self.tcx.types.u8 {
            return None;
        }
        let n = n.try_to_target_usize(self.tcx)? as usize;
        let sc = cv.try_to_scalar()?;
        let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc else { return None };
        let (prov, off) = p.into_raw_parts();
        let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = self.tcx.try_get_global_alloc(prov.alloc_id())? else {
            return None;
        };
        let a = off.bytes() as usize;
        let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + n);
        let mut out = vec![];
        let mut i = 0;
        loop {
            let b = *bytes.get(i)?;
            i += 1;
            if b == 0 {
                return if i == n { Some(out) } else { None };
            } else if b < 0x80 {
                out.push(String::from_utf8(bytes.get(i..i + b as usize)?.to_vec()).ok()?);
                i += b as usize;
            } else if b == 0x80 {
                let l = u16::from_le_bytes([*bytes.get(i)?, *bytes.get(i + 1)?]) as usize;
                i += 2;
                out.push(String::from_utf8(bytes.get(i..i + l)?.to_vec()).ok()?);
                i += l;
            } else if b >= 0xC0 {
                if b & 1 != 0 {
                    i += 4;
                }
                i += 2 * ((b >> 1 & 1) + (b >> 2 & 1) + (b >> 3 & 1)) as usize;
            } else {
                return None;
            }
        }
    }

    /// (resolved path, source-level path, status) status: 0 exact, 1 virtual/unresolved
    fn resolve(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (usize, usize, u8, Vec<usize>) {
        let orig = self.pid(d);
        let kind = self.tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            return (orig, orig, 0, vec![]);
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
        let args = self.tcx.erase_and_anonymize_regions(args);
        let istrait = self.tcx.trait_of_assoc(d).is_some();
        match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => {
                let st = match i.def {
                    ty::InstanceKind::Virtual(..) => 1,
                    _ => 0,
                };
                let rd = i.def.def_id();
                let mut ia = vec![];
                if rd.krate == rustc_hir::def_id::LOCAL_CRATE || self.tcx.crate_name(rd.krate).as_str().starts_with("weaver") || st == 1 {
                    for t in i.args.types() {
                        ia.push(self.ty(t));
                    }
                }
                (self.pid(rd), orig, st, ia)
            }
            _ => {
                let mut ia = vec![];
                if istrait {
                    for t in args.types() {
                        ia.push(self.ty(t));
                    }
                }
                (orig, orig, if istrait { 1 } else { 0 }, ia)
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, owner: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("\"u\",{}", self.operand(body, owner, op)),
            Rvalue::Repeat(op, _) => format!("\"u\",{}", self.operand(body, owner, op)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                if matches!(bk, BorrowKind::Fake(_)) {
                    return "\"fake\"".into();
                }
                format!("\"{}\",{}", if m { "rm" } else { "r" }, self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("\"{}\",{}", if m.is_mut() { "rm" } else { "r" }, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("\"r\",{}", self.place(body, p)),
            Rvalue::Cast(_, op, t) => {
                let ti = self.ty(*t);
                format!("\"cast\",{},{}", self.operand(body, owner, op), ti)
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "\"b\",\"{:?}\",{},{}",
                b,
                self.operand(body, owner, &ops.0),
                self.operand(body, owner, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => format!("\"n\",\"{:?}\",{}", u, self.operand(body, owner, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_enum(t);
                let name = match t.kind() {
                    ty::Adt(ad, _) => self.path(ad.did()),
                    _ => "?".into(),
                };
                let ni = self.s.get(&name);
                format!("\"d\",{},{}", self.place(body, p), ni)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fields: Vec<String> = vec![];
                let head = match &**k {
                    AggregateKind::Array(_) => "arr".to_string(),
                    AggregateKind::Tuple => {
                        for (i, _) in ops.iter().enumerate() {
                            fields.push(format!("#{}", i));
                        }
                        "tup".into()
                    }
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        let p = self.path(*d);
                        for (i, _) in ops.iter_enumerated() {
                            let i = active.unwrap_or(i);
                            let f = vd.fields[i].name;
                            if ad.is_enum() {
                                fields.push(format!("{}::{}.{}", p, vd.name, f));
                            } else {
                                fields.push(format!("{}.{}", p, f));
                            }
                        }
                        if ad.is_enum() {
                            self.xenums.insert(*d, ());
                            format!("adt {}::{}", p, vd.name)
                        } else {
                            format!("adt {}", p)
                        }
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        for (i, _) in ops.iter().enumerate() {
                            fields.push(format!("^{}", i));
                        }
                        format!("clo {}", self.path(*d))
                    }
                    AggregateKind::RawPtr(..) => "arr".into(),
                };
                let hi = self.s.get(&head);
                let mut o = format!("\"a\",{},[", hi);
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let fi = match fields.get(i) {
                        Some(f) => self.s.get(f) as i64,
                        None => -1,
                    };
                    let _ = write!(o, "[{},{}]", fi, self.operand(body, owner, op));
                }
                o.push(']');
                o
            }
            Rvalue::CopyForDeref(p) => format!("\"u\",{}", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => {
                let n = format!("static {}", self.path(*d));
                let i = self.s.get(&n);
                format!("\"u\",{{\"k\":\"c\",\"ty\":0,\"n\":{}}}", i)
            }
            Rvalue::WrapUnsafeBinder(op, _) => format!("\"u\",{}", self.operand(body, owner, op)),
        }
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>, promoted_tag: Option<usize>) -> String {
        let tcx = self.tcx;
        let owner = def.to_def_id();
        let id = self.pid(owner);
        let _ = promoted_tag;
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(owner);
        let root = sp.source_callsite();
        let loc = sm.lookup_char_pos(root.lo());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let fi = self.s.get(&file);
        let (_, tag) = self.spaninfo(sp);
        let kind = if tcx.is_closure_like(owner) {
            if tcx.is_coroutine(owner) {
                "coroutine"
            } else {
                "closure"
            }
        } else {
            match tcx.def_kind(owner) {
                DefKind::Fn | DefKind::AssocFn => "fn",
                _ => "const",
            }
        };
        let derived = {
            let mut d = false;
            let root = tcx.typeck_root_def_id(owner);
            if let Some(imp) = tcx.impl_of_assoc(root) {
                if tcx.is_automatically_derived(imp) {
                    d = true;
                }
                let isp = tcx.def_span(imp);
                for e in isp.macro_backtrace() {
                    if let ExpnKind::Macro(MacroKind::Derive, _) = e.kind {
                        d = true;
                    }
                }
            }
            for e in tcx.def_span(root).macro_backtrace() {
                if let ExpnKind::Macro(MacroKind::Derive, _) = e.kind {
                    d = true;
                }
            }
            d
        };
        let mut o = format!(
            "{{\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"tag\":{},\"der\":{},\"na\":{}",
            id,
            kind,
            fi,
            loc.line,
            tag,
            derived as u8,
            body.arg_count
        );
        let root = tcx.typeck_root_def_id(owner);
        if root != owner {
            let mut par = tcx.parent(owner);
            while !matches!(
                tcx.def_kind(par),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }
            ) && par != root
            {
                par = tcx.parent(par);
            }
            let _ = write!(o, ",\"par\":{}", self.pid(par));
        }
        if matches!(tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(owner);
            let own = tcx.parent_module_from_def_id(owner.expect_local()).to_def_id();
            let lvl = if vis.is_public() {
                2
            } else if matches!(vis, rustc_middle::ty::Visibility::Restricted(m) if m.to_def_id() == own) {
                0
            } else {
                1
            };
            let _ = write!(o, ",\"pub\":{}", lvl);
            if let Some(ti) = tcx.trait_item_of(owner) {
                let _ = write!(o, ",\"ti\":{}", self.pid(ti));
            }
            if let Some(im) = tcx.impl_of_assoc(owner) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self\":{}", self.ty(st));
            }
        }
        {
            // type parameters in scope, in substitution order
            let gs = tcx.generics_of(tcx.typeck_root_def_id(owner));
            let mut names = vec![];
            for i in 0..gs.count() {
                let p = gs.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    names.push(js(p.name.as_str()));
                }
            }
            if !names.is_empty() {
                let _ = write!(o, ",\"gn\":[{}]", names.join(","));
            }
        }
        if derived {
            o.push('}');
            return o;
        }
        o.push_str(",\"loc\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(d.ty);
            let _ = write!(o, "{}", t);
        }
        o.push_str("],\"nm\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "{}:{}", js(v.name.as_str()), self.place(body, p));
            }
        }
        o.push_str("},\"bb\":[");
        for (bi, (_, bb)) in body.basic_blocks.iter_enumerated().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let item = match &st.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(body, owner, &b.1);
                        if r == "\"fake\"" {
                            continue;
                        }
                        Some(format!("{},{}", self.place(body, &b.0), r))
                    }
                    _ => None,
                };
                if let Some(it) = item {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let (l, t) = self.spaninfo(st.source_info.span);
                    let _ = write!(o, "[{},{},{}]", l, t, it);
                }
            }
            o.push_str("],");
            let (l, t) = self.spaninfo(bb.terminator().source_info.span);
            let _ = write!(o, "[{},{},", l, t);
            match &bb.terminator().kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "\"g\",{}", target.as_u32());
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "\"g\",{}", real_target.as_u32());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(body, tcx);
                    let isb = t.is_bool();
                    let _ = write!(o, "\"s\",{},{},[", self.operand(body, owner, discr), isb as u8);
                    let mut first = true;
                    for (v, tg) in targets.iter() {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[{},{}]", v, tg.as_u32());
                    }
                    let _ = write!(o, "],{}", targets.otherwise().as_u32());
                }
                TerminatorKind::Return => o.push_str("\"ret\""),
                TerminatorKind::Unreachable => o.push_str("\"un\""),
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => o.push_str("\"res\""),
                TerminatorKind::Drop { place, target, .. } => {
                    let _ = write!(o, "\"dr\",{},{}", self.place(body, place), target.as_u32());
                }
                TerminatorKind::Assert { target, cond, .. } => {
                    let c = self.operand(body, owner, cond);
                    let _ = write!(o, "\"as\",{},{}", c, target.as_u32());
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(body, owner, value);
                    let _ = write!(o, "\"y\",{},{},{}", v, self.place(body, resume_arg), resume.as_u32());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, owner, func);
                    let _ = write!(o, "\"c\",{},[", f);
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let a = self.operand(body, owner, &a.node);
                        o.push_str(&a);
                    }
                    let _ = write!(o, "],{}", self.place(body, destination));
                    match target {
                        Some(t) => {
                            let _ = write!(o, ",{}", t.as_u32());
                        }
                        None => o.push_str(",-1"),
                    }
                    // generic args
                    o.push_str(",[");
                    if let ty::FnDef(_, ga) = func.ty(body, tcx).kind() {
                        let mut first = true;
                        for t in ga.skip_binder().types() {
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            let i = self.ty(t);
                            let _ = write!(o, "{}", i);
                        }
                    }
                    o.push(']');
                }
                TerminatorKind::TailCall { .. } | TerminatorKind::InlineAsm { .. } => o.push_str("\"un\""),
            }
            o.push_str("]]");
        }
        o.push_str("]}");
        o
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, outdir: &str) {
    let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    if tcx.sess.opts.test {
        return;
    }
    if crate_name == "build_script_build" {
        return;
    }
    let mut cx = Cx { tcx, s: Strs::default(), xenums: HashMap::new(), tycache: HashMap::new() };
    let _ = cx.s.get(""); // index 0 reserved: deref marker / empty tag
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut lines: Vec<String> = vec![];
    let mut fallbacks = 0;
    for def in owners {
        let k = tcx.def_kind(def);
        if matches!(k, DefKind::AnonConst) {
            continue;
        }
        if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
        {
            let _ = tcx.mir_built(def);
            let got: Option<Body<'static>> = BODIES.with(|m| m.borrow_mut().remove(&def));
            let got: Option<Body<'tcx>> = unsafe { std::mem::transmute(got) };
            match got {
                Some(b) => {
                    let l = cx.body(def, &b, None);
                    lines.push(l);
                }
                None => {
                    fallbacks += 1;
                }
            }
        }
    }
    // ADTs
    let mut adts = String::from("[");
    let mut impls = String::from("[");
    let mut fa = true;
    let mut fim = true;
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let d = id.to_def_id();
                let ad = tcx.adt_def(d);
                if !fa {
                    adts.push(',');
                }
                fa = false;
                let sm = tcx.sess.source_map();
                let loc = sm.lookup_char_pos(tcx.def_span(d).source_callsite().lo());
                let _ = write!(
                    adts,
                    "{{\"p\":{},\"en\":{},\"file\":{},\"line\":{},\"v\":[",
                    js(&cx.path(d)),
                    ad.is_enum() as u8,
                    js(&loc.file.name.prefer_local_unconditionally().to_string()),
                    loc.line
                );
                for (vi, v) in ad.variants().iter_enumerated() {
                    if vi.as_usize() > 0 {
                        adts.push(',');
                    }
                    let disc = if ad.is_enum() {
                        ad.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    let _ = write!(adts, "[{},{},[", js(v.name.as_str()), disc);
                    for (i, f) in v.fields.iter().enumerate() {
                        if i > 0 {
                            adts.push(',');
                        }
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        let ts = cx.s.list[ti].clone();
                        let _ = write!(adts, "[{},{},{}]", js(f.name.as_str()), js(&ts), f.vis.is_public() as u8);
                    }
                    adts.push_str("]]");
                }
                adts.push_str("]}");
            }
            DefKind::Impl { of_trait } => {
                let d = id.to_def_id();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let si = cx.ty(st);
                let st = cx.s.list[si].clone();
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()))))
                } else {
                    String::new()
                };
                let trd = if of_trait {
                    cx.path(tcx.impl_trait_id(d))
                } else {
                    String::new()
                };
                if !fim {
                    impls.push(',');
                }
                fim = false;
                let der = tcx.is_automatically_derived(d)
                    || tcx.def_span(d).macro_backtrace().any(|e| matches!(e.kind, ExpnKind::Macro(MacroKind::Derive, _)));
                let _ = write!(impls, "{{\"self\":{},\"tr\":{},\"trd\":{},\"der\":{},\"m\":[", js(&st), js(&tr), js(&trd), der as u8);
                let mut f = true;
                for it in tcx.associated_item_def_ids(d) {
                    if tcx.def_kind(*it) != DefKind::AssocFn {
                        continue;
                    }
                    if !f {
                        impls.push(',');
                    }
                    f = false;
                    let ti = tcx.trait_item_of(*it).map(|t| cx.path(t)).unwrap_or_default();
                    let _ = write!(impls, "[{},{}]", js(&ti), js(&cx.path(*it)));
                }
                impls.push_str("]}");
            }
            _ => {}
        }
    }
    adts.push(']');
    impls.push(']');
    let mut xe = String::from("{");
    let mut keys: Vec<DefId> = cx.xenums.keys().copied().collect();
    keys.sort_by_key(|d| cx.path(*d));
    for (i, d) in keys.iter().enumerate() {
        if i > 0 {
            xe.push(',');
        }
        let ad = tcx.adt_def(*d);
        let _ = write!(xe, "{}:[", js(&cx.path(*d)));
        for (vi, v) in ad.variants().iter_enumerated() {
            if vi.as_usize() > 0 {
                xe.push(',');
            }
            let disc = ad.discriminant_for_variant(tcx, vi).val as i128;
            let _ = write!(xe, "[{},{}]", js(v.name.as_str()), disc);
        }
        xe.push(']');
    }
    xe.push('}');
    // source files
    let mut files = String::from("[");
    let mut ff = true;
    let mut hashes = String::from("{");
    for f in tcx.sess.source_map().files().iter() {
        if f.cnum != rustc_hir::def_id::LOCAL_CRATE {
            continue;
        }
        let name = f.name.prefer_local_unconditionally().to_string();
        if name.starts_with('<') {
            continue;
        }
        if !ff {
            files.push(',');
        }
        ff = false;
        files.push_str(&js(&name));
        if !hashes.ends_with('{') {
            hashes.push(',');
        }
        let _ = write!(hashes, "{}:{}", js(&name), js(&f.src_hash.to_string()));
    }
    files.push(']');
    hashes.push('}');
    let cwd = std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default();
    let mut deps = String::from("[");
    for (i, c) in tcx.crates(()).iter().enumerate() {
        if i > 0 {
            deps.push(',');
        }
        deps.push_str(&js(tcx.crate_name(*c).as_str()));
    }
    deps.push(']');
    // body line index: id string -> offset is built on the python side
    let tmp = format!("{}/{}.tmp{}", outdir, crate_name, std::process::id());
    let mut w = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("facts file"));
    let mut strs = String::from("[");
    for (i, s) in cx.s.list.iter().enumerate() {
        if i > 0 {
            strs.push(',');
        }
        strs.push_str(&js(s));
    }
    strs.push(']');
    writeln!(
        w,
        "{{\"crate\":{},\"cwd\":{},\"hashes\":{},\"files\":{},\"deps\":{},\"fallbacks\":{},\"n\":{},\"adts\":{},\"impls\":{},\"enums\":{},\"strs\":{}}}",
        js(&crate_name), js(&cwd), hashes, files, deps, fallbacks, lines.len(), adts, impls, xe, strs
    )
    .expect("write");
    for l in &lines {
        writeln!(w, "{}", l).expect("write");
    }
    drop(w);
    std::fs::rename(&tmp, format!("{}/{}.facts", outdir, crate_name)).expect("rename");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("FACTDRV_OUT").unwrap_or_default();
    let passthrough = out.is_empty()
        || args.iter().any(|a| a == "-vV" || a.starts_with("--print") || a == "-V")
        || !args.iter().any(|a| a == "--crate-name");
    rustc_driver::install_ice_hook("https://example.invalid/", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        if passthrough {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb)
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
