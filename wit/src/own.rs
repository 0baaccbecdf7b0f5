//! Ownership of elements: every witness is a straight use of an operation on elements with a
//! destructor, where each call into user code may panic. The analyser follows all paths, including
//! the unwinding ones, and checks the life cycle of each element and each allocation.
use crate::common::*;
use crate::life::*;

macro_rules! own {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C09_C10__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}

/// The operation has to panic.
macro_rules! own_panics {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C09_C10_C11__", $tag))]
            pub fn f() {
                $b
                claim!(C10_C11__accepted_although_shapes_differ, false);
            }
        };
    };
}
macro_rules! own_if {
    (ok, $tag:expr, $b:block) => { own!($tag, $b); };
    (panics, $tag:expr, $b:block) => { own_panics!($tag, $b); };
}

// Creation and evaluation.
macro_rules! create {
    ($tag:literal, [$($n:literal),*], $s:ty) => {
        own!(concat!("from_fn_", $tag), { let _t = Tensor::from_fn([$($n),*], |_| mk()); });
        own!(concat!("from_fnx_", $tag), { let _t = Tensor::from_fn(DynRank::from_dims(&[$($n),*]), |_| mk()); });
        own!(concat!("from_fna_", $tag), { let _t = Array::<D, $s>::from_fn(|_| mk()); });
        own!(concat!("from_elem_", $tag), { let _t = Tensor::from_elem([$($n),*], quiet()); });
        own!(concat!("from_elema_", $tag), { let _t = Array::<D, $s>::from_elem(quiet()); });
        own!(concat!("clone_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.clone(); usev(&u); });
        own!(concat!("clonea_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u = t.clone(); usev(&u); });
        own!(concat!("to_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.to_tensor(); usev(&u); let _v = u.to_vec(); });
        own!(concat!("toa_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u = t.to_array(); usev(&u); });
        own!(concat!("eval_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.expr().map(|x| { x.see(); mk() }).eval(); usev(&u); });
        own!(concat!("evala_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u: Array<D, $s> = t.expr().map(|x| { x.see(); mk() }).eval(); usev(&u); });
        own!(concat!("cloned_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.expr().cloned().eval(); usev(&u); });
        own!(concat!("evalinto_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let mut u = Tensor::from_fn([$($n),*], |_| quiet());
            { let c = Chk(&mut u); t.into_expr().map(|x| { user(); x }).eval_into(&mut *c.0); } usev(&u); });
        own!(concat!("map_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.map(|x| { user(); drop(x); mk() }); usev(&u); });
        own!(concat!("mapa_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u = t.map(|x| { user(); drop(x); mk() }); usev(&u); });
        own!(concat!("apply_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.apply(|x| { user(); x }); usev(&u); });
        own!(concat!("applya_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u: Array<(D, D), $s> = t.apply(|x| (mk(), x)); drop(u); });
        own!(concat!("applyr_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let _u = (&t).apply(|x| { x.see(); mk() }).eval(); usev(&t); });
        own!(concat!("zipw_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            let u = t.zip_with(s, |(x, y)| { user(); drop(x); user(); y }); usev(&u); });
        own!(concat!("zipwr_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            let u = t.zip_with(&s, |(x, y)| { y.see(); user(); x }); usev(&u); usev(&s); });
        own!(concat!("zipwa_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet());
            let u: Array<D, $s> = t.zip_with(s, |(x, y)| { user(); drop(x); user(); y }); usev(&u); });
        own!(concat!("zip_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet());
            expr::zip(t, s).for_each(|(x, y)| { user(); drop(x); user(); y.see(); }); });
        own!(concat!("zipeval_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            let u = expr::zip(t, s).map(|(x, y)| { user(); drop(y); x }).eval(); usev(&u); });
        own!(concat!("ziplate_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet());
            let u = expr::zip(t, expr::fill_with(|| mk())).map(|(x, y)| { drop(x); y }).eval(); usev(&u); });
        own!(concat!("ziplater_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet());
            let u = expr::zip(expr::fill_with(|| mk()), t).map(|(x, y)| { drop(x); y }).eval(); usev(&u); });
        own!(concat!("fold_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); expr::fold(t, (), |_, x| { user(); x.see(); }); });
        own!(concat!("enum_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); t.into_expr().enumerate().for_each(|(_, x)| { user(); x.see(); }); });
        own!(concat!("iter_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); for x in t { user(); x.see(); } });
        own!(concat!("itera_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); for x in t { user(); x.see(); } });
        own!(concat!("part_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let mut i = t.into_iter(); let a = i.next(); user(); let b = i.next(); drop(a); drop(i); drop(b); });
        own!(concat!("parta_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let mut i = t.into_iter(); let a = i.next(); user(); let b = i.next(); drop(a); drop(i); drop(b); });
        own!(concat!("partfold_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let mut i = t.into_iter(); let a = i.next(); i.for_each(|x| { user(); x.see(); }); drop(a); });
        own!(concat!("unused_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let e = t.into_expr(); usev(e.as_ref()); });
        own!(concat!("unuseda_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let e = t.into_expr().map(|x| x); user(); drop(e); });
        own!(concat!("fill_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.fill(quiet()); } usev(&t); });
        own!(concat!("fillw_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.fill_with(|| mk()); } usev(&t); });
        own!(concat!("assign_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            { let c = Chk(&mut t); c.0.assign(&s); } usev(&t); usev(&s); });
        own!(concat!("assignv_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            { let c = Chk(&mut t); c.0.assign(s.into_expr().map(|x| { user(); x })); } usev(&t); });
        own!(concat!("mapmut_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.expr_mut().for_each(|x| { *x = mk(); }); } usev(&t); });
        own!(concat!("expclone_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let e = t.into_expr(); usev(e.as_ref()); let f = e.clone(); usev(f.as_ref()); drop(e); for x in f { x.see(); } });
        own!(concat!("expclonef_", $tag), { let mut e = Tensor::from_fn([$($n),*], |_| quiet()).into_expr(); let f = Tensor::from_fn([$($n),*], |_| quiet()).into_expr(); e.clone_from(&f); usev(e.as_ref()); usev(f.as_ref()); });
        own!(concat!("conv_", $tag), { let a = Array::<D, $s>::from_fn(|_| quiet()); let t = Tensor::from(a); user(); let a = Array::from(t); usev(&a); let t = Tensor::from(&a); user();
            let v: Tensor<D, DynRank> = t.into_dyn(); let t: Tensor<D, $s> = v.into_mapping(); usev(&t); });
        own!(concat!("flat_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let f = t.into_flat(); user(); usev(&f); let v = f.into_vec(); user(); let f = Tensor::<D, (Dyn,)>::from(v); usev(&f); });
        own_panics!(concat!("shape_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let n = t.len(); let f = t.into_shape([n, 1]); usev(&f); let u = f.into_shape([n + 1]); drop(u); });
        own_panics!(concat!("mapbad_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()).into_dyn(); let u = t.into_mapping::<(Const<7>, Dyn)>(); drop(u); });
        own!(concat!("raw_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let (p, m, c) = t.into_raw_parts(); user_q(); let t = unsafe { Tensor::from_raw_parts(p, m, c) }; usev(&t); });
        own!(concat!("reserve_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.reserve(5); } { let c = Chk(&mut t); c.0.shrink_to_fit(); }
            { let c = Chk(&mut t); c.0.reserve_exact(3); } { let c = Chk(&mut t); c.0.shrink_to(4); } { let c = Chk(&mut t); _ = c.0.try_reserve(9); } usev(&t); });
        own!(concat!("clonefrom_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*].map(|x| x + 1), |_| quiet());
            { let c = Chk(&mut t); c.0.clone_from(&s); } usev(&t); });
        own!(concat!("clonefromr_", $tag), { let mut t = Tensor::from_fn([$($n),*].map(|x| x + 1), |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet());
            { let c = Chk(&mut t); c.0.clone_from(&s); } usev(&t); });
        // destructors that panic
        own!(concat!("pdrop_", $tag), { let _t = Tensor::from_fn([$($n),*], |_| pquiet()); });
        own!(concat!("pdropa_", $tag), { let _t = Array::<P1, $s>::from_fn(|_| pquiet()); });
        own!(concat!("piter_", $tag), { let t = Tensor::from_fn([$($n),*], |_| pquiet()); for x in t { drop(x); } });
        own!(concat!("ppart_", $tag), { let t = Tensor::from_fn([$($n),*], |_| pquiet()); let mut i = t.into_iter(); let a = i.next(); drop(i); drop(a); });
        own!(concat!("pparta_", $tag), { let t = Array::<P1, $s>::from_fn(|_| pquiet()); let mut i = t.into_iter(); let a = i.next(); drop(a); drop(i); });
        own!(concat!("pmap_", $tag), { let t = Tensor::from_fn([$($n),*], |_| pquiet()); let _u = t.map(|x| { drop(x); pquiet() }); });
        own!(concat!("pfill_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); c.0.fill_with(|| pquiet()); } });
        own!(concat!("passign_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); c.0.expr_mut().for_each(|x| *x = pquiet()); } });
    };
}
create!("3", [3], (Const<3>,));
create!("12", [1, 2], (Const<1>, Const<2>));
create!("22", [2, 2], (Const<2>, Const<2>));
create!("212", [2, 1, 2], (Const<2>, Const<1>, Const<2>));

// Growing and shrinking.
macro_rules! grow {
    ($ok:tt, $tag:literal, [$($n:literal),*], [$($m:literal),*]) => {
        own!(concat!("resize_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.resize(&[$($m),*], quiet()); } usev(&t); });
        own!(concat!("resizew_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.resize_with(&[$($m),*], || mk()); } usev(&t); });
        own!(concat!("resizex_", $tag), { let mut t = Tensor::from_fn(DynRank::from_dims(&[$($n),*]), |_| quiet()); { let c = Chk(&mut t); c.0.resize_with(&[$($m),*], || mk()); } usev(&t); });
        own!(concat!("presize_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); c.0.resize_with(&[$($m),*], || pquiet()); } });
        own_if!($ok, concat!("append_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let mut s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); let d = Chk(&mut s); c.0.append(d.0); } usev(&t); usev(&s); });
        own_if!($ok, concat!("expand_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); c.0.expand(&s); } usev(&t); usev(&s); });
        own_if!($ok, concat!("expandv_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); c.0.expand(s.into_expr().map(|x| { user(); x })); } usev(&t); });
        own_if!($ok, concat!("evalext_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); s.into_expr().map(|x| { user(); x }).eval_into(&mut *c.0); } usev(&t); });
        own!(concat!("clonefrom2_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); c.0.clone_from(&s); } usev(&t); });
        own_panics!(concat!("assign2_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            { let c = Chk(&mut t); c.0.assign(s); } usev(&t); });
        own_panics!(concat!("zip2_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($m),*], |_| quiet());
            expr::zip(t, s).for_each(|(x, y)| { user(); drop(x); y.see(); }); });
    };
}
grow!(ok, "2_3", [2], [3]);
grow!(ok, "3_1", [3], [1]);
grow!(ok, "2_0", [2], [0]);
grow!(ok, "22_32", [2, 2], [3, 2]);
grow!(ok, "22_12", [2, 2], [1, 2]);
grow!(panics, "22_23", [2, 2], [2, 3]);
grow!(panics, "23_32", [2, 3], [3, 2]);
grow!(panics, "22_31", [2, 2], [3, 1]);
grow!(ok, "20_22", [2, 0], [2, 2]);
grow!(ok, "22_02", [2, 2], [0, 2]);
grow!(panics, "121_212", [1, 2, 1], [2, 1, 2]);
grow!(panics, "212_221", [2, 1, 2], [2, 2, 1]);

macro_rules! shrink {
    ($tag:literal, [$($n:literal),*], $a:literal, $b:literal) => {
        own!(concat!("trunc_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.truncate($a); } usev(&t); });
        own!(concat!("ptrunc_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); c.0.truncate($a); } });
        own!(concat!("clear_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.clear(); } usev(&t); });
        own!(concat!("pclear_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); c.0.clear(); } });
        own!(concat!("drain_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); c.0.drain($a..$b).for_each(|x| { user(); x.see(); }); } usev(&t); });
        own!(concat!("drainp_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); let mut i = c.0.drain($a..$b).into_iter(); let x = i.next(); user(); drop(i); drop(x); } usev(&t); });
        own!(concat!("drainu_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); drop(c.0.drain($a..$b)); } usev(&t); });
        own!(concat!("drainx_", $tag), { let mut t = Tensor::from_fn(DynRank::from_dims(&[$($n),*]), |_| quiet()); { let c = Chk(&mut t); let d = c.0.drain($a..$b); usev(d.as_ref()); let u = d.eval(); usev(&u); } usev(&t); });
        own!(concat!("drainleak_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); let mut i = c.0.drain($a..$b).into_iter(); let x = i.next(); leaky(()); std::mem::forget(i); drop(x); } usev(&t); });
        own!(concat!("pdrain_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| pquiet()); { let c = ChkP(&mut t); drop(c.0.drain($a..$b)); } });
    };
}
shrink!("4_1_3", [4], 1, 3);
shrink!("3_0_2", [3], 0, 2);
shrink!("3_3_3", [3], 3, 3);
shrink!("32_1_2", [3, 2], 1, 2);
shrink!("32_0_3", [3, 2], 0, 3);
shrink!("22_2_2", [2, 2], 2, 2);
shrink!("312_1_3", [3, 1, 2], 1, 3);

// One-dimensional and scalar conveniences.
own!("extend", { let mut t = Tensor::from_fn([2], |_| quiet()); { let c = Chk(&mut t); c.0.extend([quiet(), quiet()].into_iter().map(|x| { user(); x })); } usev(&t); });
own!("collect", { let t: Tensor<D, (Dyn,)> = [quiet(), quiet()].into_iter().map(|x| { user(); x }).collect(); usev(&t); });
own!("from_slice", { let a = [quiet(), quiet()]; let t = Tensor::from(&a[..]); usev(&t); });
own!("scalar", { let t = Tensor::from_fn([1, 1], |_| quiet()); let d = t.into_scalar(); user(); d.see(); });
own_panics!("scalar_bad", { let t = Tensor::from_fn([2, 1], |_| quiet()); let d = t.into_scalar(); d.see(); });
own!("scalara", { let t = Array::<D, (Const<1>, Const<1>)>::from_fn(|_| quiet()); let d = t.into_scalar(); user(); d.see(); });
own_panics!("scalara_bad", { let t = Array::<D, (Const<1>, Const<2>)>::from_fn(|_| quiet()); let d = t.into_scalar(); d.see(); });
own!("shapea", { let t = Array::<D, (Const<1>, Const<4>)>::from_fn(|_| quiet()); let u = t.into_shape::<(Const<2>, Const<2>)>(); user(); usev(&u); });
own_panics!("shapea_bad", { let t = Array::<D, (Const<1>, Const<4>)>::from_fn(|_| quiet()); let u = t.into_shape::<(Const<2>, Const<3>)>(); drop(u); });
own!("nested", { let t: Tensor<D, (Dyn, Dyn)> = Tensor::from([[quiet(), quiet()], [quiet(), quiet()]]); user(); let a = <[[D; 2]; 2]>::try_from(t).ok().unwrap(); user(); let a = Array::from(a); usev(&a); let _b: [[D; 2]; 2] = a.into(); });
own!("nested_bad", { let t: Tensor<D, (Dyn, Dyn)> = Tensor::from([[quiet(), quiet()], [quiet(), quiet()]]); match <[[D; 2]; 1]>::try_from(t) { Ok(a) => drop(a), Err(t) => usev(&t) } });
own!("vec1", { let t: Tensor<D, (Dyn,)> = Tensor::from(vec![quiet(), quiet()]); user(); let v: Vec<D> = t.into(); user(); drop(v); });
own!("macro_t", { let t: Tensor<D, (Const<2>, Const<2>)> = tensor![[mk(), mk()], [mk(), mk()]].into_mapping(); usev(&t); });
own!("macro_r", { let t = tensor![mk(); 3]; usev(&t); });
own!("macro_rr", { let t = tensor![[mk(); 2]; 2]; usev(&t); });
own!("macro_a", { let t = array![[mk(), mk()], [mk(), mk()]]; usev(&t); });
own!("zip_bcast", { let t = Tensor::from_fn([2, 2], |_| quiet()); let s = Array::<u64, (Const<2>,)>([1, 2]); let u = t.zip_with(&s, |(x, _)| { user(); x }); usev(&u); });
own!("drain_into", { let mut t = Tensor::from_fn([2, 2], |_| quiet()); let mut s = Tensor::from_fn([1, 2], |_| quiet()); { let c = Chk(&mut t); let d = Chk(&mut s); c.0.expand(d.0.drain(..1)); } usev(&t); usev(&s); });
own!("drain_zip", { let mut t = Tensor::from_fn([2, 2], |_| quiet()); let mut s = Tensor::from_fn([2, 2], |_| quiet()); { let c = Chk(&mut t); let d = Chk(&mut s); c.0.drain(..).zip(d.0.drain(..)).for_each(|(x, y)| { user(); drop(y); x.see(); }); } });
own!("rank0", { let t = Tensor::from_fn([], |_| mk()); let u = t.map(|x| { user(); x }); usev(&u); let d = u.into_scalar(); d.see(); });
own!("default", { let mut t = Tensor::<D, (Dyn, Dyn)>::new(); { let c = Chk(&mut t); c.0.expand(&Tensor::from_fn([1, 2], |_| quiet())); } usev(&t); let u = std::mem::take(&mut t); usev(&u); });
own!("capacity", { let mut t = Tensor::<D, (Dyn, Dyn)>::with_capacity(6); { let c = Chk(&mut t); c.0.expand(&Tensor::from_fn([2, 2], |_| quiet())); } usev(&t); });
own!("empty", { let t = Tensor::from_fn([0, 2], |_| mk()); let u = t.map(|x| x); let v = u.clone(); for x in v { x.see(); } });

// Operators that consume or replace elements.
impl std::ops::Neg for D {
    type Output = D;
    #[inline(always)]
    fn neg(self) -> D { self.see(); user(); self }
}
impl std::ops::Neg for &D {
    type Output = D;
    #[inline(always)]
    fn neg(self) -> D { self.see(); mk() }
}
impl std::ops::Sub<D> for D {
    type Output = D;
    #[inline(always)]
    fn sub(self, r: D) -> D { user(); drop(r); user(); self }
}
impl std::ops::Sub<&D> for D {
    type Output = D;
    #[inline(always)]
    fn sub(self, r: &D) -> D { r.see(); user(); self }
}
impl std::ops::Sub<D> for &D {
    type Output = D;
    #[inline(always)]
    fn sub(self, r: D) -> D { self.see(); user(); r }
}
impl std::ops::Sub<&D> for &D {
    type Output = D;
    #[inline(always)]
    fn sub(self, r: &D) -> D { self.see(); r.see(); mk() }
}
impl std::ops::SubAssign<D> for D {
    #[inline(always)]
    fn sub_assign(&mut self, r: D) { user(); *self = r; user(); }
}
impl std::ops::SubAssign<&D> for D {
    #[inline(always)]
    fn sub_assign(&mut self, r: &D) { *self = r.clone(); }
}
macro_rules! oper {
    ($tag:literal, [$($n:literal),*], $s:ty) => {
        own!(concat!("op_neg_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let u = -t; usev(&u); let v = (-&u).eval(); usev(&v); usev(&u); });
        own!(concat!("op_nega_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let u = -t; usev(&u); let v: Array<D, $s> = (-&u).eval(); usev(&v); });
        own!(concat!("op_sub_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = t - s; usev(&u); });
        own!(concat!("op_suba_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet()); let u = t - s; usev(&u); });
        own!(concat!("op_subta_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet()); let u = t - s; usev(&u); });
        own!(concat!("op_subr_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = t - &s; usev(&u); usev(&s); });
        own!(concat!("op_subrr_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = (&t - &s).eval(); usev(&u); usev(&s); usev(&t); });
        own!(concat!("op_rsub_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = &t - s; usev(&u); usev(&t); });
        own!(concat!("op_rsuba_", $tag), { let t = Array::<D, $s>::from_fn(|_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet()); let u = &t - s; usev(&u); usev(&t); });
        own!(concat!("op_fill_", $tag), { let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = expr::fill(quiet()) - s; usev(&u); });
        own!(concat!("op_fillr_", $tag), { let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = s - expr::fill(quiet()); usev(&u); });
        own!(concat!("op_fillw_", $tag), { let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = expr::fill_with(|| mk()) - s; usev(&u); });
        own!(concat!("op_map_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.into_expr().map(|x| { user(); x }) - s; usev(&u); });
        own!(concat!("op_expr_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = (t.into_expr() - s.into_expr()).eval(); usev(&u); });
        own!(concat!("op_exprt_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.into_expr() - s; usev(&u); });
        own!(concat!("op_unused_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); let u = t.into_expr() - s.into_expr(); user(); drop(u); });
        own!(concat!("op_set_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); *c.0 -= s; } usev(&t); });
        own!(concat!("op_setr_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); *c.0 -= &s; } usev(&t); usev(&s); });
        own!(concat!("op_seta_", $tag), { let mut t = Array::<D, $s>::from_fn(|_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet()); t -= s; usev(&t); });
        own!(concat!("op_setv_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); let s = Array::<D, $s>::from_fn(|_| quiet()); { let c = Chk(&mut t); let mut v = c.0.expr_mut(); v -= s; } usev(&t); });
        own!(concat!("op_setfill_", $tag), { let mut t = Tensor::from_fn([$($n),*], |_| quiet()); { let c = Chk(&mut t); **c.0 -= expr::fill_with(|| mk()); } usev(&t); });
    };
}
oper!("3", [3], (Const<3>,));
oper!("12", [1, 2], (Const<1>, Const<2>));
oper!("22", [2, 2], (Const<2>, Const<2>));
oper!("212", [2, 1, 2], (Const<2>, Const<1>, Const<2>));
oper!("02", [0, 2], (Const<0>, Const<2>));
own!("op_bcast", { let t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2], |_| quiet()); let u = t - &s; usev(&u); usev(&s); });
own!("op_bcast_r", { let t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2], |_| quiet()); let u = &s - t; usev(&u); usev(&s); });
own!("op_bcast_set", { let mut t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2], |_| quiet()); { let c = Chk(&mut t); *c.0 -= &s; } usev(&t); });
own_panics!("op_bcast_moved", { let t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2], |_| quiet()); let u = t - s; usev(&u); });
own_panics!("op_shape", { let t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2, 1], |_| quiet()); let u = t - s; usev(&u); });
own_panics!("op_shape_set", { let mut t = Tensor::from_fn([2, 2], |_| quiet()); let s = Tensor::from_fn([2, 3], |_| quiet()); { let c = Chk(&mut t); *c.0 -= s; } });

// An iterator whose user code has panicked can be used again, here by a guard during unwinding: it
// has to go on without touching an element twice.
struct Cont<'a, I: Iterator>(&'a mut I);

impl<I: Iterator> Drop for Cont<'_, I> {
    fn drop(&mut self) {
        while let Some(x) = self.0.next() {
            drop(x);
        }
    }
}

macro_rules! resume {
    ($tag:expr, $it:expr) => {
        own!(concat!("resume_", $tag), {
            let mut it = $it;
            {
                let g = Cont(&mut it);
                drop(g.0.next());
                drop(g.0.next());
                drop(g.0.next());
            }
            drop(it);
        });
    };
}

macro_rules! resumes {
    ($tag:literal, [$($n:literal),*], $s:ty) => {
        resume!(concat!("tensor_", $tag), Tensor::from_fn([$($n),*], |_| quiet()).into_expr().map(|x| { user(); x }).into_iter());
        resume!(concat!("array_", $tag), Array::<D, $s>::from_fn(|_| quiet()).into_expr().map(|x| { user(); x }).into_iter());
        resume!(concat!("zipl_", $tag), expr::zip(Tensor::from_fn([$($n),*], |_| quiet()), Array::<D, $s>::from_fn(|_| quiet()).into_expr().map(|x| { user(); x })).into_iter());
        resume!(concat!("zipr_", $tag), expr::zip(Array::<D, $s>::from_fn(|_| quiet()).into_expr().map(|x| { user(); x }), Tensor::from_fn([$($n),*], |_| quiet())).into_iter());
        resume!(concat!("fill_", $tag), expr::zip(Tensor::from_fn([$($n),*], |_| quiet()), expr::fill_with(|| mk())).into_iter());
        resume!(concat!("fn_", $tag), expr::from_fn([$($n),*], |_| mk()).into_iter());
        own!(concat!("resume_cloned_", $tag), { let t = Tensor::from_fn([$($n),*], |_| quiet());
            { let mut it = t.expr().cloned().into_iter(); { let g = Cont(&mut it); drop(g.0.next()); drop(g.0.next()); } } usev(&t); });
        own!(concat!("resume_drain_", $tag), { let mut t = Tensor::from_fn([3, $($n),*], |_| quiet());
            { let c = Chk(&mut t); let mut it = c.0.drain(0..2).map(|x| { user(); x }).into_iter(); { let g = Cont(&mut it); drop(g.0.next()); drop(g.0.next()); } } usev(&t); });
    };
}
resumes!("1", [2], (C<2>,));
resumes!("2", [1, 2], (C<1>, C<2>));
resumes!("3", [2, 1], (C<2>, C<1>));
resumes!("z", [0, 2], (C<0>, C<2>));
