"""Which obligations decide which property."""
import oblig
from oblig import keys_of

CLAR = "int uint buffer true false pstd pcon ok err some none list tuple ascii utf8".split()


def dflt():
    return keys_of("dec_any", "c32ad", "c32a")


def ref(name):
    for m in ("spec", "tx", "text", "conv", "api", "mk", "wal", "drv", "rp", "de"):
        if oblig.entry(m + "::" + name) is not None:
            return m + "::" + name
    return "spec::" + name


def eq(name, opaque=None, **kw):
    return {"kind": "eq", "args": (name, ref(name), dflt() if opaque is None else opaque), "kw": kw}


def nopanic(name, opaque=None, **kw):
    return {"kind": "nopanic", "args": (name, dflt() if opaque is None else opaque), "kw": kw}


def any_opaque():
    return keys_of("c32ad", "c32a", *["dec_" + x for x in CLAR])


def C01():
    return [eq("enc_" + t) for t in CLAR + ["lps", "fnargs"]]


def C02():
    return [eq("dec_" + t) for t in CLAR + ["lps", "fnargs"]]


def C03():
    return [eq("dec_any", any_opaque())]


def C04():
    return [nopanic("dec_" + t) for t in CLAR + ["lps", "fnargs"]] + [nopanic("dec_any", any_opaque())]


TXENC = "tx auth scs scm".split()


def C05():
    return [eq("enc_" + t) for t in TXENC]


def C06():
    return [eq("enc_" + t) for t in ("ttp", "ccp", "bpl")] + [eq("dec_ttp"), eq("dec_ccp"), eq("dec_bpl", dflt() + keys_of("dec_ttp", "dec_ccp"))] + [eq(n) for n in "ttp_mk ttp_mks ttp_obs ccp_mk ccp_mks".split()]


def C07():
    return [eq("enc_" + t) for t in ("pcs", "stxpc", "fpc", "nfpc", "asset")] + [eq(n) for n in "stx_mk stx_mkc asset_mk asset_mks fpc_mk fpc_mkc nfpc_mk nfpc_mkc pcs_new pcs_ref pcs_val pcs_clone pcs_iter pcs_default".split()]


def C08():
    return [eq(n) for n in "h_presign h_postsign h_sighash h_next_sig h_next_ver h_from_recov h_into_recov h_msig_new h_msig_slice".split()]


def C09():
    return [eq(n) for n in "h_sha256 h_dsha256 h_sha512 h_hash160 h_hash160_new h_p2pkh h_p2wpkh h_p2sh h_p2wsh cs_sha256 cs_dsha256 cs_sha512 cs_hash160".split()] + [eq("ha_%s%d" % (x, i)) for x in "abcdef" for i in range(1, 7)]


def C10():
    return [eq(n) for n in "scs_new scs_default scs_verify scs_modify scs_reset scs_get scs_set_fee scs_set_nonce scm_new scm_verify scm_modify scm_reset scm_get scm_sigs scm_set_fee scm_set_nonce".split()]


def C11():
    return [eq(n) for n in "auth_verify auth_verify_origin auth_reset auth_set_fee auth_set_nonce auth_set_sponsor auth_is auth_origin auth_sponsor auth_origin_mut auth_sponsor_mut".split()]


def C12():
    return [eq(n) for n in "tx_new tx_hash tx_set_fee tx_set_nonce sg_new sg_new_sponsor sg_sign_origin sg_sign_sponsor sg_append sg_tx tx_sign".split()]


def op(*n):
    return keys_of(*n)


def C13():
    return [eq("hex_dec"), eq("hex_enc")]


def C14():
    o = op("b58_enc", "b58_dec")
    return [eq("b58_enc", []), eq("b58_dec", []), eq("b58c_enc", o), eq("b58c_dec", o)]


def C15():
    o = op("c32_enc", "c32_dec")
    return [eq("c32_enc", []), eq("c32_dec", []), eq("c32c_enc", o), eq("c32c_dec", o), eq("c32a_enc", op("c32c_enc")), eq("c32a_dec", op("c32c_dec")), eq("addr_new", []), eq("addr_parse", op("c32c_dec"))]


FORMS = CLAR + "lps fnargs ttp ccp bpl tx auth scs scm pcs stxpc fpc nfpc asset".split()


def C16():
    o = dflt() + op("hex_enc")
    return [eq(k + "_" + t, o, ignore_err=False) for t in FORMS for k in ("len", "emp", "hex", "hexp")]


NOUNIT = [t for t in CLAR if t not in ("true", "false", "none")] + ["lps", "fnargs"]


def C17():
    return ([eq(k + "_" + t, []) for t in CLAR + ["lps", "fnargs"] for k in ("nv", "rv", "iv", "cl", "id")]
            + [eq("dv_" + t, []) for t in ("true", "false", "none")]
            + [eq("cv_" + n, []) for n in "int int_in int_out uint_in uint_out buf_vec buf_slice buf_out pstd_str pstd_string pstd_out pcon_str pcon_string lps_str lps_string".split()]
            + [eq("it_" + n, []) for n in "buf list tuple fnargs".split()]
            + [eq("ca_%s%d" % (t, i), []) for t in ("int", "uint", "list", "ok", "true", "false", "buf", "std", "con", "err", "some", "none", "tup", "ascii", "utf8", "lps", "fna") for i in range(1, 9)])


def C18():
    o = op("hex_enc")
    return [eq(k + "_" + t, o) for t in CLAR + ["lps", "fnargs"] for k in ("ds", "eq")]


def C19():
    return [eq("tu_" + n, []) for n in "get get_string get_mut insert remove keys values".split()]


def C20():
    return [eq("mc_" + n, []) for n in "int uint buf buf0 true false none pstd pcon ok err some ascii utf8 lps list0 tuple0 fnargs0 list fnargs tuple pcs0 pcs1 pcs3 pc_stx pc_ft pc_nft list_1 fnargs_1 tuple_1 list_2 fnargs_2 tuple_2 list_3 fnargs_3 tuple_3 list_5 fnargs_5 tuple_5 list_6 fnargs_6 tuple_6 list_7 fnargs_7 tuple_7 list_8 fnargs_8 tuple_8 list_9 fnargs_9 tuple_9 list_10 fnargs_10 tuple_10 pcs_f pcs_ft pcs_n pcs_ss pcs_fs pcs_fst pcs_nf pcs_nn pcs_fff pcs_nfs pcs_nfst pcs_sfsn pcs_sssss nest1 arith lit ev_list ev_args ev_tuple ev_one ev_text ev_pcs".split()]


def C21():
    return [eq("nw_%s%d" % (n, i), []) for n in ("main", "test", "mock") for i in (1, 2, 3, 4)]


def C22():
    return [eq(n, op("h_p2pkh", "c32a_dec", "c32c_dec")) for n in "bt_min bt_full bt_memo bt_plain bc_min bc_full bc_plain".split()]


def C23():
    return [eq(n, op("h_p2pkh", "c32a_enc")) for n in "wl_new wl_new_str wl_two wl_set wl_reset wl_over wi_get wi_set wl_priv wl_pub wa_priv wa_pub wa_addr".split()]


def C24():
    return [eq(n) for n in "d_true d_false d_qual d_int d_uint d_bool d_buf d_str d_rint d_ruint d_strs d_nest d_multi d_opt_int d_opt_int_none d_opt_int_abs d_opt_uint d_opt_uint_none d_opt_uint_abs d_opt_str d_opt_str_none d_key0 d_key1 d_key2 d_key3 d_key4 d_key5 d_key6 d_key7 d_key8 d_key9 d_key10 d_key11 d_key12 d_key13 d_key14 d_nresp d_yresp d_same d_gen d_nest2 d_twostr".split()]


def C25():
    return [eq(n) for n in "rp_new rp_new_str rp_info rp_address rp_fee rp_broadcast rp_read rq_info rq_address rq_fee rq_broadcast rq_read".split()]


def C26():
    import effects
    return [{"kind": "effects", "args": (m,), "kw": {}} for m in effects.modules(oblig.POLY) + ["statics", "unsafe"]]


def C27():
    members = dict(info=12, addr=6, berr=3, fee=2, ro_ok=2, ro_err=2)
    return [eq("de_%s_m%d" % (n, i)) for n, k in members.items() for i in range(k)] + [eq(n) for n in "de_info de_info_rev de_addr de_addr_rev de_fee de_fees de_berr de_berr_rev de_ro_ok de_ro_err de_ro_no de_roe_no de_ror de_rore de_ror_no de_br de_bre de_efe de_addr_ty de_addr_no de_berr_no de_fee_no de_show de_show_r".split()]


def C28():
    import typew
    return [{"kind": "type", "args": (k, w[0]), "kw": {}} for k, l in (("no", typew.W), ("yes", typew.P)) for w in l]


PROPS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
