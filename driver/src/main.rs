// RUSTC_WORKSPACE_WRAPPER driver: dumps the monomorphic, fully resolved MIR of the
// `cyclos_core` crate (and of the core-library combinators it instantiates) as JSON.
// It performs no judgement; the rules live in /verif/sa.
#![feature(rustc_private)]
#![allow(rustc::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgs, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "-V" || a == "--version" || a == "--print" || a.starts_with("--print="));
    let mut target = false;
    let mut i = 0;
    while i + 1 < args.len() {
        if args[i] == "--crate-name" && args[i + 1] == "cyclos_core" {
            target = true;
        }
        i += 1;
    }
    let test = args.iter().any(|a| a == "--test");
    let out = std::env::var("CYK_MIR_OUT").ok();
    if probing || !target || test || out.is_none() {
        let rustc = std::env::var("CYK_RUSTC").expect("CYK_RUSTC");
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("spawn rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    std::env::set_var("RUSTC_BOOTSTRAP", "1");
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    let mut cb = Cb { out: out.unwrap() };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, _c: &mut interface::Config) {}
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let s = dump(tcx);
        std::fs::write(&self.out, s).expect("write mir dump");
        Compilation::Continue
    }
}

// ---------------------------------------------------------------- json
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    keys: HashMap<Instance<'tcx>, String>,
    names: HashMap<String, usize>,
}

fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(sp.lo());
    let f = format!("{}", loc.file.name.prefer_local_unconditionally());
    let f = match f.find("programs/core/") {
        Some(i) => f[i..].to_string(),
        None => f,
    };
    format!("{}:{}", f, loc.line)
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        keys: HashMap::new(),
        names: HashMap::new(),
    };
    let mut roots = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        let g = tcx.generics_of(did);
        if g.own_requires_monomorphization() || g.requires_monomorphization(tcx) {
            continue;
        }
        let args = GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => panic!("generic root"),
        });
        let inst = Instance::new_raw(did, args);
        roots.push(inst);
    }
    let mut root_keys = vec![];
    for r in roots {
        let k = cx.enqueue(r);
        root_keys.push(k);
    }
    let mut fns = vec![];
    while let Some(inst) = cx.queue.pop_front() {
        if let Some(s) = cx.body_json(inst) {
            fns.push(s);
        }
    }
    let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    format!(
        "{{\"roots\":{},\"adts\":{{{}}},\"fns\":[\n{}\n]}}",
        arr(root_keys.iter().map(|k| q(k))),
        adts.join(",\n"),
        fns.join(",\n")
    )
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, did: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(did))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn key(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&inst) {
            return k.clone();
        }
        let base = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        let base = match inst.def {
            ty::InstanceKind::Item(_) => base,
            ref other => format!("{}#{}", base, format!("{:?}", other).split('(').next().unwrap_or("")),
        };
        let n = self.names.entry(base.clone()).or_insert(0);
        *n += 1;
        let k = if *n == 1 { base } else { format!("{}#{}", base, n) };
        self.keys.insert(inst, k.clone());
        k
    }
    fn want(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => return false,
        }
        let did = inst.def_id();
        if did.is_local() {
            return true;
        }
        let krate = self.tcx.crate_name(did.krate).to_string();
        if krate != "core" {
            return false;
        }
        if !self.tcx.is_mir_available(did) {
            return false;
        }
        let p = self.path(did);
        const OK: &[&str] = &[
            "core::option", "core::result", "core::ops", "core::cmp", "core::convert", "core::bool",
            "core::iter", "core::mem::swap", "core::mem::replace", "core::mem::take", "core::clone", "core::default",
            "std::option", "std::result", "std::ops", "std::cmp", "std::convert", "std::bool",
            "std::iter", "std::mem::swap", "std::mem::replace", "std::mem::take", "std::clone", "std::default",
            "core::tuple", "std::tuple",
        ];
        let p2 = p.trim_start_matches('<');
        OK.iter().any(|o| p2.starts_with(o)) || p.contains("bool>::then") || p.contains("std::ops::") || p.contains("Option<") || p.contains("Result<")
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let k = self.key(inst);
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
        k
    }
    fn note_adt(&mut self, t: Ty<'tcx>) -> String {
        let name = self.ty(t);
        if let ty::Adt(def, args) = t.kind() {
            if !self.adts.contains_key(&name) {
                self.adts.insert(name.clone(), String::new());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                    } else {
                        "null".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args);
                        let fty = self.tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or_else(|_| fty.skip_norm_wip());
                        fs.push(format!("[{},{}]", q(f.name.as_str()), q(&self.ty(fty))));
                    }
                    vs.push(format!("[{},{},{}]", q(v.name.as_str()), discr, arr(fs)));
                }
                let size = match self.tcx.layout_of(self.env.as_query_input(t)) {
                    Ok(l) => format!("{}", l.size.bytes()),
                    Err(_) => "null".into(),
                };
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let j = format!(
                    "{{\"kind\":{},\"path\":{},\"local\":{},\"packed\":{},\"size\":{},\"variants\":{}}}",
                    q(kind),
                    q(&self.path(def.did())),
                    def.did().is_local(),
                    def.repr().packed(),
                    size,
                    arr(vs)
                );
                self.adts.insert(name.clone(), j);
            }
        }
        name
    }

    fn body_json(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !tcx.is_mir_available(did) {
            return None;
        }
        let raw = tcx.instance_mir(inst.def);
        let key = self.key(inst);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let mut promoted = vec![];
        if did.is_local() {
            if let ty::InstanceKind::Item(d) = inst.def {
                let pm = tcx.promoted_mir(d);
                for p in pm.iter() {
                    let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, p.clone()));
                    let s = self.one_body(&pb);
                    promoted.push(s);
                }
            }
        }
        let main = self.one_body(&body);
        let kind = format!("{:?}", tcx.def_kind(did));
        let vis = did.is_local() && tcx.visibility(did).is_public();
        Some(format!(
            "{{\"key\":{},\"path\":{},\"local\":{},\"kind\":{},\"pub\":{},\"span\":{},\"body\":{},\"promoted\":{}}}",
            q(&key),
            q(&self.path(did)),
            did.is_local(),
            q(&kind),
            vis,
            q(&span_str(tcx, tcx.def_span(did))),
            main,
            arr(promoted)
        ))
    }

    fn one_body(&mut self, b: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.note_adt(d.ty);
            let n = names.get(&l.as_usize()).map(|s| q(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", q(&t), n));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                if let Some(x) = self.stmt(b, s) {
                    st.push(x);
                }
            }
            let t = self.term(b, bb.terminator());
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, arr(st), t));
        }
        let spread = match b.spread_arg { Some(l) => format!("{}", l.as_usize()), None => "null".into() };
        format!("{{\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}", b.arg_count, spread, arr(locals), arr(blocks))
    }

    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<String> {
        let sp = q(&span_str(self.tcx, s.source_info.span));
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                Some(format!("[\"=\",{},{},{}]", self.place(b, *p), self.rvalue(b, r), sp))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = place.ty(b, self.tcx).ty;
                let vn = match t.kind() {
                    ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                    _ => "?".into(),
                };
                Some(format!("[\"setd\",{},{},{}]", self.place(b, **place), q(&vn), sp))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            StatementKind::Intrinsic(i) => Some(format!("[\"intr\",{},{}]", q(&format!("{:?}", i)), sp)),
            _ => None,
        }
    }

    fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (fname, _tn) = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pty.variant_index {
                                Some(v) => d.variant(v),
                                None => d.non_enum_variant(),
                            };
                            (v.fields[f].name.to_string(), "")
                        }
                        _ => (format!("{}", f.as_usize()), ""),
                    };
                    format!("[\"f\",{},{}]", f.as_usize(), q(&fname))
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match n {
                        Some(s) => s.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(d, _) => d.variant(v).name.to_string(),
                            _ => format!("{}", v.as_usize()),
                        },
                    };
                    format!("[\"v\",{}]", q(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            };
            pr.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(b, *p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(b, *p)),
            Operand::Constant(c) => self.constant(&c.const_),
            _ => {
                format!("[\"ck\",{}]", q(&format!("{:?}", o)))
            }
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let tn = self.note_adt(t);
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| self.tcx.instantiate_bound_regions_with_erased(*args));
            return format!("[\"fn\",{}]", self.callee(*did, args));
        }
        let mut named = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // promoted of some instance
                let inst = Instance::new_raw(u.def, u.args);
                let k = self.key(inst);
                return format!("[\"pr\",{},{},{}]", q(&k), p.as_usize(), q(&tn));
            }
            named = q(&self.path(u.def));
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => format!("[\"k\",{},{},{}]", self.cval(v, t, 0), q(&tn), named),
            Err(_) => format!("[\"k\",[\"?\",{}],{},{}]", q(&format!("{:?}", c)), q(&tn), named),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => {
                if let Some(bits) = v.try_to_bits_for_ty(tcx, self.env, t) {
                    return format!("[\"n\",\"{}\"]", bits);
                }
            }
            ty::Int(it) => {
                if let Some(bits) = v.try_to_bits_for_ty(tcx, self.env, t) {
                    let w = it.bit_width().unwrap_or(64);
                    let sh = 128 - w as u32;
                    let sv = ((bits << sh) as i128) >> sh;
                    return format!("[\"n\",\"{}\"]", sv);
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"str\",{}]", q(&String::from_utf8_lossy(bs)));
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("[\"bytes\",{}]", arr(bs.iter().map(|x| format!("{}", x))));
                        }
                    }
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    if let Some(interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(id) {
                        return format!("[\"static\",{}]", q(&self.path(d)));
                    }
                    if let Some(interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(id) {
                        if depth < 4 && !matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) {
                            let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                            return format!("[\"ref\",{}]", self.cval(iv, *inner, depth + 1));
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) if depth < 6 => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let (vn, fns): (String, Vec<String>) = match t.kind() {
                        ty::Adt(def, _) => {
                            let var = match d.variant {
                                Some(i) => Some(def.variant(i)),
                                None => if def.is_struct() { Some(def.non_enum_variant()) } else { None },
                            };
                            match var {
                                Some(var) => (var.name.to_string(), var.fields.iter().map(|f| f.name.to_string()).collect()),
                                None => ("?".into(), vec![]),
                            }
                        }
                        _ => ("".into(), vec![]),
                    };
                    let fields: Vec<_> = d.fields.iter().map(|(fv, ft)| (*fv, *ft)).collect();
                    let fs: Vec<String> = fields
                        .into_iter()
                        .enumerate()
                        .map(|(i, (fv, ft))| {
                            let nm = fns.get(i).cloned().unwrap_or(format!("{}", i));
                            format!("[{},{}]", q(&nm), self.cval(fv, ft, depth + 1))
                        })
                        .collect();
                    let tn = self.note_adt(t);
                    return format!("[\"agg\",{},{},{}]", q(&tn), q(&vn), arr(fs));
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            let tn = self.note_adt(t);
            return format!("[\"zst\",{}]", q(&tn));
        }
        format!("[\"?\",{}]", q(&format!("{:?}", v)))
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let path = self.path(did);
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args));
        let targs = arr(args.types().collect::<Vec<_>>().into_iter().map(|t| { let n = self.note_adt(t); q(&n) }));
        let mut rkey = "null".to_string();
        let mut rpath = "null".to_string();
        let mut rlocal = false;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
            rpath = q(&self.path(inst.def_id()));
            rlocal = inst.def_id().is_local();
            if self.want(inst) {
                let k = self.enqueue(inst);
                rkey = q(&k);
            } else if let ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = inst.def {
                // calling FnOnce of a Fn closure: inline the closure body itself
                let cd = inst.def_id();
                if cd.is_local() {
                    if let Some(ty0) = inst.args.types().next() {
                        if let ty::Closure(d, a) = ty0.kind() {
                            let ci = Instance::new_raw(*d, a);
                            let k = self.enqueue(ci);
                            rkey = q(&format!("once:{}", k));
                        }
                    }
                }
            }
        }
        format!(
            "{{\"path\":{},\"full\":{},\"targs\":{},\"key\":{},\"rpath\":{},\"local\":{}}}",
            q(&path), q(&full), targs, rkey, rpath, rlocal
        )
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(b, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(b, *p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", format!("{:?}", k).contains("Mut"), self.place(b, *p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reb\",{},{}]", format!("{:?}", m).contains("Mut"), self.place(b, *p)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(b, self.tcx);
                let a = self.note_adt(ft);
                let c = self.note_adt(*t);
                format!("[\"cast\",{},{},{},{}]", q(&format!("{:?}", k)), self.operand(b, o), q(&a), q(&c))
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(b, self.tcx);
                let tn = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", q(&format!("{:?}", op)), self.operand(b, &bx.0), self.operand(b, &bx.1), q(&tn))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(b, self.tcx);
                let tn = self.ty(t);
                format!("[\"un\",{},{},{}]", q(&format!("{:?}", op)), self.operand(b, o), q(&tn))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let tn = self.note_adt(t);
                format!("[\"discr\",{},{}]", self.place(b, *p), q(&tn))
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.operand(b, o)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"arr\",{}]", arr(fs)),
                    AggregateKind::Tuple => format!("[\"tup\",{}]", arr(fs)),
                    AggregateKind::Adt(did, vi, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args);
                        let t = self.tcx.try_normalize_erasing_regions(self.env, t).unwrap_or_else(|_| t.skip_norm_wip());
                        let tn = self.note_adt(t);
                        let def = self.tcx.adt_def(*did);
                        let v = def.variant(*vi);
                        let mut names: Vec<String> = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                        if let Some(a) = active {
                            names = vec![names[a.as_usize()].clone()];
                        }
                        format!("[\"adt\",{},{},{},{},{}]", q(&tn), q(v.name.as_str()), arr(names), arr(fs), def.is_enum())
                    }
                    AggregateKind::Closure(did, args) => {
                        let inst = Instance::new_raw(*did, self.tcx.erase_and_anonymize_regions(*args));
                        let kk = self.enqueue(inst);
                        format!("[\"clo\",{},{}]", q(&kk), arr(fs))
                    }
                    _ => format!("[\"oagg\",{}]", arr(fs)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(b, *p)),
            other => format!("[\"orv\",{}]", q(&format!("{:?}", other))),
        }
    }

    fn unw(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            _ => "null".into(),
        }
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = q(&span_str(self.tcx, t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(b, self.tcx);
                let signed = match dt.kind() {
                    ty::Int(it) => Some(it.bit_width().unwrap_or(64)),
                    _ => None,
                };
                let ts: Vec<String> = targets
                    .iter()
                    .map(|(v, bb)| {
                        let vs = match signed {
                            Some(w) => {
                                let sh = 128 - w as u32;
                                format!("{}", ((v << sh) as i128) >> sh)
                            }
                            None => format!("{}", v),
                        };
                        format!("[\"{}\",{}]", vs, bb.as_usize())
                    })
                    .collect();
                format!("[\"sw\",{},{},{},{},{}]", self.operand(b, discr), arr(ts), targets.otherwise().as_usize(), q(&self.ty(dt)), sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(b, self.tcx).ty;
                let tn = self.ty(pt);
                format!("[\"drop\",{},{},{},{}]", self.place(b, *place), target.as_usize(), q(&tn), sp)
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, unwind, .. } => {
                let f = self.operand(b, func);
                let a: Vec<String> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                let d = self.place(b, *destination);
                let dt = destination.ty(b, self.tcx).ty;
                let dtn = self.note_adt(dt);
                let tg = match target { Some(t) => t.as_usize().to_string(), None => "null".into() };
                let fsp = q(&span_str(self.tcx, *fn_span));
                let mut at = vec![];
                for x in args.iter() {
                    let t0 = x.node.ty(b, self.tcx);
                    at.push(q(&self.ty(t0)));
                }
                let u = self.unw(unwind);
                format!("[\"call\",{},{},{},{},{},{},{},{}]", f, arr(a), d, tg, q(&dtn), fsp, arr(at), u)
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let m = format!("{:?}", msg);
                format!("[\"assert\",{},{},{},{},{}]", self.operand(b, cond), expected, target.as_usize(), q(&m.chars().take(60).collect::<String>()), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            other => format!("[\"oterm\",{}]", q(&format!("{:?}", other))),
        }
    }
}
