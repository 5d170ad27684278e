"""Property -> the functions whose contracts state it.
roots: names (or prefixes ending in ::) of functions under contract that carry the property;
bounded: functions the property also depends on that only the harness (bounded) exercises."""
PROPS = {
 'C01': dict(roots=['modulus::Modulus::'], skip=['modulus::Modulus::random', 'modulus::Modulus::random_vec'], bounded=[]),
 'C02': dict(roots=['ntt::'], bounded=[]),
 'C03': dict(roots=['ntt::NttOperator::new', 'ntt::NttOperator::forward', 'ntt::NttOperator::backward', 'modulus::Modulus::mul_vec', 'modulus::Modulus::add_vec'], lemmas=['lem_ring'], bounded=[]),
 'C04': dict(roots=['utils::U256::', 'utils::[u64; 4]::from(U256)', 'utils::[u128; 2]::from(U256)', 'utils::u128::from(U256)', 'utils::ilog2', 'utils::div_ceil'], bounded=[]),
 'C05': dict(roots=['rns::RnsContext::', 'rq::Vec<BigU>::from(Poly)'], bounded=[]),
 'C06': dict(roots=['rns::RnsScaler::', 'rns::ScalingFactor::', 'rq::RqScaler::'], bounded=[]),
 'C07': dict(roots=['rq::Poly::add_assign(Poly)', 'rq::Poly::sub_assign(Poly)', 'rq::Poly::mul_assign(Poly)', 'rq::Poly::add(Poly)', 'rq::Poly::sub(Poly)', 'rq::Poly::mul(Poly)', 'rq::Poly::mul_assign(BigU)', 'rq::Poly::mul(BigU)', 'rq::Poly::neg()', 'rq::Poly::change_representation', 'rq::Poly::try_from_vec_u64', 'rq::Poly::try_from_vec_i64', 'rq::Poly::try_from_bigint', 'rq::Poly::inverse', 'rq::Poly::zero', 'rq::Poly::coefficients', 'rq::Vec<BigU>::from(Poly)', 'rq::Vec<u64>::from(Poly)', 'rq::RqContext::new', 'omr::inner_product'], lemmas=['lem_ring'], bounded=[]),
 'C08': dict(roots=['rq::Substitution::new', 'rq::Poly::substitute'], lemmas=['lem_subst'], bounded=[]),
 'C09': dict(roots=['rq::Poly::mod_switch_down_next', 'rq::Poly::mod_switch_to', 'rq::RqContext::switch_iterations', 'rq::RqContext::new'], bounded=[]),
 'C10': dict(roots=['bfv::SecretKey::', 'bfv::Plaintext::to_poly', 'bfv::BfvParameters::new', 'bfv::BfvParameters::ctx_level'], lemmas=['lem_bfv', 'lem_dec'], bounded=[]),
 'C11': dict(roots=['bfv::BfvCipherText::add(BfvCipherText)', 'bfv::BfvCipherText::sub(BfvCipherText)', 'bfv::BfvCipherText::add(Poly)', 'bfv::BfvCipherText::mul(Poly)', 'bfv::BfvCipherText::mul(BigU)', 'bfv::BfvCipherText::mul(Plaintext)'], lemmas=['lem_ring', 'lem_bfv'], bounded=[]),
 'C12': dict(roots=['ksk::Ksk::', 'bfv::GaliosKey::', 'bfv::RelinearizationKey::'], lemmas=['lem_ksk', 'lem_gal'], bounded=[]),
 'C13': dict(roots=['rgsw::RgswCt::'], lemmas=['lem_ksk', 'lem_rgsw'], bounded=[]),
 'C14': dict(roots=['bfv::Plaintext::', 'bfv::BfvParameters::new'], lemmas=['lem_slots', 'lem_dec'], bounded=[]),
 'C15': dict(roots=['pvw::PvwSk::', 'pvw::PvwPk::'], lemmas=['lem_pvw'], bounded=[]),
 'C16': dict(roots=['evaluations::Client::encode', 'evaluations::Server::new', 'evaluations::Server::decode', 'evaluations::Evaluation::', 'evaluations::gen_x_pows', 'evaluations::unpack'], lemmas=['lem_pir', 'lem_unpack', 'lem_decode', 'lem_retrieve'], bounded=[]),
 'C17': dict(roots=['utils::is_prime', 'utils::is_strong_probable_prime', 'utils::generate_prime', 'bfv::BfvParameters::generate_moduli'], bounded=[]),
 'C18': dict(roots=['utils::sample_vec_cbd', 'modulus::Modulus::random', 'modulus::Modulus::random_vec', 'rq::Poly::random', 'rq::Poly::random_from_seed', 'rq::Poly::random_small'], bounded=[]),
 'C19': dict(roots=['bfv::BfvCipherText::mul(BfvCipherText)', 'bfv::multiply_with_strategy', 'bfv::MultiplicationParameters::new', 'bfv::BfvParameters::new', 'bfv::RelinearizationKey::'], lemmas=['lem_mul', 'lem_gal', 'lem_zring', 'lem_muldec'], bounded=[]),
 'C20': dict(roots=['utils::decompose_bits', 'utils::bit_vector'], bounded=[]),
}

HOOKS = ['864f0fcf08aaa93b0157c4531e40a62791a19602', 'e6e30bf326de34ddd7aabf5e521094debade415b']
NA = {}

def roots(pid, names):
    p = PROPS[pid]; out = []
    for r in p['roots']:
        out += [n for n in names if n == r or (r.endswith('::') and n.startswith(r))]
    return [n for n in dict.fromkeys(out) if n not in p.get('skip', [])]
