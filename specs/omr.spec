== omr::inner_product
refuses
requires
    cts.len() >= 1, cts.len() == polys.len() ==> (forall|a: int| 0 <= a < cts.len() ==> bct_wf(#[trigger] cts@[a])) && (forall|a: int| 0 <= a < polys.len() ==> poly_wf(#[trigger] polys@[a])),
ensures
    cts.len() == polys.len(), bct_wf(ret), same_shape(ret, cts@[0]),
    forall|j: int, i: int, k: int| 0 <= j < ret.cts.len() && 0 <= i < ctx_n(bctx(ret)) && 0 <= k < bctx(ret).degree ==> #[trigger] bc(ret, j, i, k) == ip_sum(cts@, polys@, j, i, k, cts.len() as nat) % cq(bctx(ret), i),
inv 0
    $n == cts.len(), cts.len() == polys.len(), $i >= 1, forall|a: int| 0 <= a < cts.len() ==> bct_wf(#[trigger] cts@[a]), forall|a: int| 0 <= a < polys.len() ==> poly_wf(#[trigger] polys@[a]),
    bct_wf(product), same_shape(product, cts@[0]), 
    forall|j: int, i: int, k: int| 0 <= j < product.cts.len() && 0 <= i < ctx_n(bctx(product)) && 0 <= k < bctx(product).degree ==> #[trigger] bc(product, j, i, k) == ip_sum(cts@, polys@, j, i, k, $i as nat) % cq(bctx(product), i),
before 0
    proof { assert(bct_wf(cts@[0])); assert(poly_wf(polys@[0])); assert forall|j: int, i: int, k: int| 0 <= j < product.cts.len() && 0 <= i < ctx_n(bctx(product)) && 0 <= k < bctx(product).degree implies #[trigger] bc(product, j, i, k) == ip_sum(cts@, polys@, j, i, k, 1) % cq(bctx(product), i) by { assert(ip_sum(cts@, polys@, j, i, k, 0) == 0); assert(ip_sum(cts@, polys@, j, i, k, 1) == bc(cts@[0], j, i, k) * pc(polys@[0], i, k)); assert(bctx(product) == bctx(cts@[0])); } }
begin 0
    let ghost prod0 = product;
end 0
    proof { assert forall|j: int, ii: int, k: int| 0 <= j < product.cts.len() && 0 <= ii < ctx_n(bctx(product)) && 0 <= k < bctx(product).degree implies #[trigger] bc(product, j, ii, k) == ip_sum(cts@, polys@, j, ii, k, (i + 1) as nat) % cq(bctx(product), ii) by {
        assert(bc(product, j, ii, k) == (bc(prod0, j, ii, k) + bc(p, j, ii, k)) % cq(bctx(product), ii));
        lemma_ctx(bctx(product), ii);
        lemma_mod_add2(ip_sum(cts@, polys@, j, ii, k, i as nat), bc(cts@[i as int], j, ii, k) * pc(polys@[i as int], ii, k), cq(bctx(product), ii)); } }
