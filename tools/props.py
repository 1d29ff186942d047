"""What each property's check runs."""
import gen_tx as tx, gen_keys as ky, gen_codec as co, gen_psbt as ps, gen_hist as hi, gen_mem as me
from gen_twin import near, twin
def M(module, cfg=None, **kw): return dict(module=module, cfg=(cfg or module)+'.cfg', **kw)
T = lambda *w: [M('MC_Toy', 'MC_Toy_'+x) for x in w]
ST = dict(models=[M('MC_Stream'), M('MC_Stream', 'MC_StreamTx')], models_thorough=[M('MC_Stream', 'MC_Stream_deep', workers=4), M('MC_Stream', 'MC_StreamTx_deep', workers=4)])
LS = dict(models=ST['models']+[M('Life', workers=1)], models_thorough=ST['models_thorough'])
PROPS = {
 'C01': dict(gens=[tx.c01, twin(tx.c01, 60, lambda n: n//8)], quick=400, **ST),
 'C02': dict(gens=[tx.c02, lambda r, n: ps.cuts(r, n), twin(tx.c02, 100, lambda n: n//8, True)], quick=400, **LS, from_models=lambda ms, r, n: hi.life(ms, r, 2*n)),
 'C03': dict(gens=[tx.c03], quick=200, **ST),
 'C04': dict(gens=[tx.c04_stream, lambda r, n: ps.c06_records(r, n, True), lambda r, n: ps.el_wits(r, n//8), twin(tx.c04_stream, 100, lambda n: n//8, True)], quick=400, **LS, from_models=lambda ms, r, n: hi.life(ms, r, 2*n)),
 'C05': dict(gens=[tx.c05, twin(tx.c05, 60, lambda n: n//5)], quick=200, models=[M('MC_Sign', workers=4)], models_thorough=[M('MC_Sign', 'MC_Sign_deep', workers=6)], from_models=lambda ms, r, n: hi.signing(ms, r, 2*n)),
 'C06': dict(gens=[ps.c06, ps.c06_records], quick=120, models=[M('MC_Psbt', 'MC_Psbt_file', workers=4)], models_thorough=[M('MC_Psbt', 'MC_Psbt_deep', workers=6)], from_models=lambda ms, r, n: hi.psbts(ms, r, n)),
 'C07': dict(gens=[ps.c07, twin(ps.c07, 16, lambda n: n//4)], quick=80, models=[M('MC_Psbt', workers=4)], models_thorough=[M('MC_Psbt', 'MC_Psbt_deep', workers=6)], from_models=lambda ms, r, n: hi.psbts(ms, r, n)),
 'C08': dict(gens=[ps.c08, twin(ps.c08, 40, lambda n: n//5)], quick=120, models=[M('MC_Own', 'MC_Own_'+x) for x in ('fee', 'prev', 'mine')], models_thorough=[M('MC_Psbt', 'MC_Psbt_deep', workers=6)], from_models=lambda ms, r, n: hi.owning(ms, r, n)),
 'C09': dict(gens=[ky.c09, twin(ky.c09, 20, lambda n: n//2)], quick=60, models=T('hd', 'group')+[M('MC_Path')], models_thorough=T('hd_deep'), from_models=lambda ms, r, n: hi.paths(ms, r, 5*n)),
 'C10': dict(gens=[ky.c10, twin(ky.c10, 20, lambda n: n//4), near(ky.c10, 20, 4)], quick=80, models=[M('MC_XKey')], from_models=lambda ms, r, n: hi.xkeys(ms, r, 8*n)),
 'C11': dict(gens=[ky.c11, near(ky.c11, 12, 2)], quick=60, models=[M('MC_Words', workers=4)], models_thorough=[M('MC_Words', 'MC_Words_deep', workers=6)], from_models=lambda ms, r, n: hi.words(ms, r, 10*n)),
 'C12': dict(gens=[ky.c12, near(ky.c12, 40, 1)], quick=100, models=T('sign', 'sigs', 'der', 'derbytes'), models_thorough=T('sign_deep', 'sigs_deep', 'der_deep')),
 'C13': dict(gens=[ky.c13, near(ky.c13, 20, 1)], quick=60, models=T('sign', 'sigs'), models_thorough=T('sign_deep', 'sigs_deep')),
 'C14': dict(gens=[ky.c14, near(ky.c14, 40, 2)], quick=120, models=T('group', 'scalar', 'derbytes')),
 'C15': dict(gens=[co.c15, near(co.c15, 40, 2)], quick=150, models=[M('MC_Text', 'MC_Text_bytes'), M('MC_Text', 'MC_Text_chars')], from_models=lambda ms, r, n: hi.codecs(ms, r, 4*n)),
 'C16': dict(gens=[ky.c16, near(ky.c16, 30, 1)], quick=80, models=[M('MC_Addr', 'MC_Addr_wit', workers=4), M('MC_Addr', 'MC_Addr_b58'), M('MC_Code', 'MC_Code_bech')], models_thorough=[M('MC_Addr', 'MC_Addr_wit_deep', workers=6)], from_models=lambda ms, r, n: hi.addresses(ms, r, 5*n)),
 'C17': dict(gens=[tx.c17, twin(tx.c17, 60, lambda n: n//4)], quick=200, models=[M('MC_Build', 'MC_Build_'+x, workers=3) for x in ('script', 'multi', 'tpl')], models_thorough=[M('MC_Build', 'MC_Build_'+x+'_deep', workers=4) for x in ('script', 'multi')], from_models=lambda ms, r, n: hi.building(ms, r, n)),
 'C18': dict(gens=[co.c18, near(co.c18, 60, 5), twin(co.c18, 60, lambda n: n//6)], quick=300, models=[M('MC_Hash', workers=1)], from_models=lambda ms, r, n: hi.streams(ms, r, 2*n)),
 'C19': dict(gens=[tx.c19, twin(tx.c19, 100, lambda n: n//8, True)], quick=450, models=[M('Life', workers=1)], from_models=lambda ms, r, n: hi.life(ms, r, 4*n)),
 'C20': dict(gens=[ky.c20, near(ky.c20, 30, 2)], quick=100, models=[M('MC_Addr', 'MC_Addr_wif')], from_models=lambda ms, r, n: hi.wifs(ms, r, 5*n)),
 'C21': dict(gens=[ps.c21, twin(ps.c21, 30, lambda n: n//4)], quick=100, models=[M('MC_El', workers=3)], models_thorough=[M('MC_El', 'MC_El_deep', workers=6)], from_models=lambda ms, r, n: hi.electrums(ms, r, 2*n)),
 'C22': dict(gens=[co.c22, near(co.c22, 40, 4)], quick=200, models=[M('MC_Code', 'MC_Code_desc')], models_thorough=[M('MC_Code', 'MC_Code_desc_deep')], from_models=lambda ms, r, n: hi.descs(ms, r, 2*n)),
 'C23': dict(gens=[ky.c23, near(ky.c23, 40, 3)], quick=150, models=T('scalar')),
 'C24': dict(gens=[co.c24, near(co.c24, 40, 4)], quick=200, models=[M('MC_Int')], from_models=lambda ms, r, n: hi.integers(ms, r, 5*n)),
 'C25': dict(gens=[me.c25], quick=150, models=[M('MC_Wipe', workers=1)], models_thorough=[M('MC_Wipe', 'MC_Wipe_deep', workers=4)], from_models=lambda ms, r, n: me.wipes(ms, r, 2*n)),
}
