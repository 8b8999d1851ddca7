------------------------------- MODULE OpTable --------------------------------
(* The calls of the register machine: name, argument kinds, group, function, form.  *)
(* Argument kinds: D/E/B register changed in place (matrix, vector, bytes), M/V/U   *)
(* register read, R/W/P register receiving a returned object, r/c index, n size,    *)
(* k diagonal, b byte, i count, z flag, f value, s exponent, e tolerance, t fraction. *)
(* Written by tools/gen_optable.py from the harness table.                          *)
OpTable == {
  [op |-> "m_new", sig |-> <<"R">>, g |-> "life", fn |-> "new", fm |-> "new"],
  [op |-> "v_new", sig |-> <<"W">>, g |-> "life", fn |-> "new", fm |-> "new"],
  [op |-> "u_new", sig |-> <<"P">>, g |-> "life", fn |-> "new", fm |-> "new"],
  [op |-> "m_init", sig |-> <<"D", "n", "n">>, g |-> "life", fn |-> "init", fm |-> "dst"],
  [op |-> "v_init", sig |-> <<"E", "n">>, g |-> "life", fn |-> "init", fm |-> "dst"],
  [op |-> "u_init", sig |-> <<"B", "n">>, g |-> "life", fn |-> "init", fm |-> "dst"],
  [op |-> "m_reinit", sig |-> <<"D", "n", "n">>, g |-> "life", fn |-> "reinit", fm |-> "dst"],
  [op |-> "v_reinit", sig |-> <<"E", "n">>, g |-> "life", fn |-> "reinit", fm |-> "dst"],
  [op |-> "u_reinit", sig |-> <<"B", "n">>, g |-> "life", fn |-> "reinit", fm |-> "dst"],
  [op |-> "m_isinit", sig |-> <<"M">>, g |-> "life", fn |-> "isinit", fm |-> "get"],
  [op |-> "v_isinit", sig |-> <<"V">>, g |-> "life", fn |-> "isinit", fm |-> "get"],
  [op |-> "u_isinit", sig |-> <<"U">>, g |-> "life", fn |-> "isinit", fm |-> "get"],
  [op |-> "m_rows", sig |-> <<"M">>, g |-> "life", fn |-> "rows", fm |-> "get"],
  [op |-> "v_rows", sig |-> <<"V">>, g |-> "life", fn |-> "rows", fm |-> "get"],
  [op |-> "u_rows", sig |-> <<"U">>, g |-> "life", fn |-> "rows", fm |-> "get"],
  [op |-> "m_cols", sig |-> <<"M">>, g |-> "life", fn |-> "cols", fm |-> "get"],
  [op |-> "m_set", sig |-> <<"D", "r", "c", "f">>, g |-> "el", fn |-> "set", fm |-> "dst"],
  [op |-> "v_set", sig |-> <<"E", "r", "f">>, g |-> "el", fn |-> "set", fm |-> "dst"],
  [op |-> "u_set", sig |-> <<"B", "r", "b">>, g |-> "el", fn |-> "setb", fm |-> "dst"],
  [op |-> "m_get", sig |-> <<"M", "r", "c">>, g |-> "el", fn |-> "get", fm |-> "get"],
  [op |-> "v_get", sig |-> <<"V", "r">>, g |-> "el", fn |-> "get", fm |-> "get"],
  [op |-> "u_get", sig |-> <<"U", "r">>, g |-> "el", fn |-> "get", fm |-> "get"],
  [op |-> "m_fill", sig |-> <<"D", "f">>, g |-> "fill", fn |-> "fill", fm |-> "dst"],
  [op |-> "v_fill", sig |-> <<"E", "f">>, g |-> "fill", fn |-> "fill", fm |-> "dst"],
  [op |-> "m_ident", sig |-> <<"D">>, g |-> "fill", fn |-> "ident", fm |-> "dst"],
  [op |-> "m_copy", sig |-> <<"D", "M">>, g |-> "fill", fn |-> "copy", fm |-> "dst"],
  [op |-> "v_copy", sig |-> <<"E", "V">>, g |-> "fill", fn |-> "copy", fm |-> "dst"],
  [op |-> "m_dup", sig |-> <<"R", "M">>, g |-> "fill", fn |-> "dup", fm |-> "new"],
  [op |-> "v_dup", sig |-> <<"W", "V">>, g |-> "fill", fn |-> "dup", fm |-> "new"],
  [op |-> "m_setrow", sig |-> <<"D", "V", "r">>, g |-> "rowcol", fn |-> "setrow", fm |-> "dst"],
  [op |-> "m_setcol", sig |-> <<"D", "V", "c">>, g |-> "rowcol", fn |-> "setcol", fm |-> "dst"],
  [op |-> "m_getrow", sig |-> <<"E", "M", "r">>, g |-> "rowcol", fn |-> "getrow", fm |-> "dst"],
  [op |-> "m_getcol", sig |-> <<"E", "M", "c">>, g |-> "rowcol", fn |-> "getcol", fm |-> "dst"],
  [op |-> "m_rowvec", sig |-> <<"W", "M", "r">>, g |-> "rowcol", fn |-> "rowvec", fm |-> "new"],
  [op |-> "m_colvec", sig |-> <<"W", "M", "c">>, g |-> "rowcol", fn |-> "colvec", fm |-> "new"],
  [op |-> "m_addrow", sig |-> <<"D", "V", "r">>, g |-> "edit", fn |-> "addrow", fm |-> "dst"],
  [op |-> "m_addcol", sig |-> <<"D", "V", "c">>, g |-> "edit", fn |-> "addcol", fm |-> "dst"],
  [op |-> "m_delrow", sig |-> <<"D", "W", "r">>, g |-> "edit", fn |-> "delrow", fm |-> "dst"],
  [op |-> "m_tr", sig |-> <<"D">>, g |-> "edit", fn |-> "tr", fm |-> "ip"],
  [op |-> "m_trnew", sig |-> <<"R", "M">>, g |-> "edit", fn |-> "tr", fm |-> "new"],
  [op |-> "m_diag", sig |-> <<"W", "M", "k">>, g |-> "edit", fn |-> "diag", fm |-> "new"],
  [op |-> "v_tomat", sig |-> <<"R", "V">>, g |-> "edit", fn |-> "tomat", fm |-> "new"],
  [op |-> "m_same", sig |-> <<"M", "M">>, g |-> "eq", fn |-> "same", fm |-> "get"],
  [op |-> "v_same", sig |-> <<"V", "V">>, g |-> "eq", fn |-> "same", fm |-> "get"],
  [op |-> "m_square", sig |-> <<"M">>, g |-> "eq", fn |-> "square", fm |-> "get"],
  [op |-> "m_eq", sig |-> <<"M", "M", "e">>, g |-> "eq", fn |-> "eq", fm |-> "get"],
  [op |-> "v_eq", sig |-> <<"V", "V", "e">>, g |-> "eq", fn |-> "eq", fm |-> "get"],
  [op |-> "m_add", sig |-> <<"D", "M", "M">>, g |-> "ew", fn |-> "add", fm |-> "dst"],
  [op |-> "m_add_ip", sig |-> <<"D", "M">>, g |-> "ew", fn |-> "add", fm |-> "ip"],
  [op |-> "m_add_new", sig |-> <<"R", "M", "M">>, g |-> "ew", fn |-> "add", fm |-> "new"],
  [op |-> "m_sub", sig |-> <<"D", "M", "M">>, g |-> "ew", fn |-> "sub", fm |-> "dst"],
  [op |-> "m_sub_ip", sig |-> <<"D", "M">>, g |-> "ew", fn |-> "sub", fm |-> "ip"],
  [op |-> "m_sub_new", sig |-> <<"R", "M", "M">>, g |-> "ew", fn |-> "sub", fm |-> "new"],
  [op |-> "m_adds", sig |-> <<"D", "M", "f">>, g |-> "ew", fn |-> "adds", fm |-> "dst"],
  [op |-> "m_adds_ip", sig |-> <<"D", "f">>, g |-> "ew", fn |-> "adds", fm |-> "ip"],
  [op |-> "m_adds_new", sig |-> <<"R", "M", "f">>, g |-> "ew", fn |-> "adds", fm |-> "new"],
  [op |-> "m_subs", sig |-> <<"D", "M", "f">>, g |-> "ew", fn |-> "subs", fm |-> "dst"],
  [op |-> "m_subs_ip", sig |-> <<"D", "f">>, g |-> "ew", fn |-> "subs", fm |-> "ip"],
  [op |-> "m_subs_new", sig |-> <<"R", "M", "f">>, g |-> "ew", fn |-> "subs", fm |-> "new"],
  [op |-> "m_muls_ip", sig |-> <<"D", "f">>, g |-> "ew", fn |-> "muls", fm |-> "ip"],
  [op |-> "m_pow", sig |-> <<"D", "s">>, g |-> "ew", fn |-> "pow", fm |-> "ip"],
  [op |-> "v_add", sig |-> <<"E", "V", "V">>, g |-> "ew", fn |-> "add", fm |-> "dst"],
  [op |-> "v_add_ip", sig |-> <<"E", "V">>, g |-> "ew", fn |-> "add", fm |-> "ip"],
  [op |-> "v_add_new", sig |-> <<"W", "V", "V">>, g |-> "ew", fn |-> "add", fm |-> "new"],
  [op |-> "v_sub", sig |-> <<"E", "V", "V">>, g |-> "ew", fn |-> "sub", fm |-> "dst"],
  [op |-> "v_sub_ip", sig |-> <<"E", "V">>, g |-> "ew", fn |-> "sub", fm |-> "ip"],
  [op |-> "v_sub_new", sig |-> <<"W", "V", "V">>, g |-> "ew", fn |-> "sub", fm |-> "new"],
  [op |-> "v_adds", sig |-> <<"E", "V", "f">>, g |-> "ew", fn |-> "adds", fm |-> "dst"],
  [op |-> "v_adds_ip", sig |-> <<"E", "f">>, g |-> "ew", fn |-> "adds", fm |-> "ip"],
  [op |-> "v_adds_new", sig |-> <<"W", "V", "f">>, g |-> "ew", fn |-> "adds", fm |-> "new"],
  [op |-> "v_subs", sig |-> <<"E", "V", "f">>, g |-> "ew", fn |-> "subs", fm |-> "dst"],
  [op |-> "v_subs_ip", sig |-> <<"E", "f">>, g |-> "ew", fn |-> "subs", fm |-> "ip"],
  [op |-> "v_subs_new", sig |-> <<"W", "V", "f">>, g |-> "ew", fn |-> "subs", fm |-> "new"],
  [op |-> "v_muls", sig |-> <<"E", "V", "f">>, g |-> "ew", fn |-> "muls", fm |-> "dst"],
  [op |-> "v_muls_ip", sig |-> <<"E", "f">>, g |-> "ew", fn |-> "muls", fm |-> "ip"],
  [op |-> "v_muls_new", sig |-> <<"W", "V", "f">>, g |-> "ew", fn |-> "muls", fm |-> "new"],
  [op |-> "v_pow", sig |-> <<"E", "s">>, g |-> "ew", fn |-> "pow", fm |-> "ip"],
  [op |-> "m_mul", sig |-> <<"D", "M", "M">>, g |-> "prod", fn |-> "mul", fm |-> "dst"],
  [op |-> "m_mul_new", sig |-> <<"R", "M", "M">>, g |-> "prod", fn |-> "mul", fm |-> "new"],
  [op |-> "v_outer", sig |-> <<"R", "V", "V">>, g |-> "prod", fn |-> "outer", fm |-> "new"],
  [op |-> "v_dot", sig |-> <<"V", "V">>, g |-> "prod", fn |-> "dot", fm |-> "get"],
  [op |-> "m_trace", sig |-> <<"M">>, g |-> "prod", fn |-> "trace", fm |-> "get"],
  [op |-> "m_frob", sig |-> <<"M">>, g |-> "prod", fn |-> "frob", fm |-> "get"],
  [op |-> "v_norm", sig |-> <<"V">>, g |-> "prod", fn |-> "norm", fm |-> "get"],
  [op |-> "v_normalize", sig |-> <<"E">>, g |-> "interp", fn |-> "normalize", fm |-> "ip"],
  [op |-> "v_lerp", sig |-> <<"E", "V", "V", "t">>, g |-> "interp", fn |-> "lerp", fm |-> "dst"],
  [op |-> "v_slerp", sig |-> <<"E", "V", "V", "t">>, g |-> "interp", fn |-> "slerp", fm |-> "dst"],
  [op |-> "q_isq", sig |-> <<"V">>, g |-> "quat", fn |-> "isq", fm |-> "get"],
  [op |-> "q_isreal", sig |-> <<"V">>, g |-> "quat", fn |-> "isreal", fm |-> "get"],
  [op |-> "q_ispure", sig |-> <<"V">>, g |-> "quat", fn |-> "ispure", fm |-> "get"],
  [op |-> "q_isversor", sig |-> <<"V">>, g |-> "quat", fn |-> "isversor", fm |-> "get"],
  [op |-> "q_isident", sig |-> <<"V">>, g |-> "quat", fn |-> "isident", fm |-> "get"],
  [op |-> "q_setw", sig |-> <<"E", "f">>, g |-> "quat", fn |-> "setq0", fm |-> "dst"],
  [op |-> "q_setx", sig |-> <<"E", "f">>, g |-> "quat", fn |-> "setq1", fm |-> "dst"],
  [op |-> "q_sety", sig |-> <<"E", "f">>, g |-> "quat", fn |-> "setq2", fm |-> "dst"],
  [op |-> "q_setz", sig |-> <<"E", "f">>, g |-> "quat", fn |-> "setq3", fm |-> "dst"],
  [op |-> "q_getw", sig |-> <<"V">>, g |-> "quat", fn |-> "getq0", fm |-> "get"],
  [op |-> "q_getx", sig |-> <<"V">>, g |-> "quat", fn |-> "getq1", fm |-> "get"],
  [op |-> "q_gety", sig |-> <<"V">>, g |-> "quat", fn |-> "getq2", fm |-> "get"],
  [op |-> "q_getz", sig |-> <<"V">>, g |-> "quat", fn |-> "getq3", fm |-> "get"],
  [op |-> "q_vec", sig |-> <<"W", "V">>, g |-> "quat", fn |-> "vecpart", fm |-> "new"],
  [op |-> "q_fill", sig |-> <<"E", "f", "f", "f", "f">>, g |-> "quat", fn |-> "fillq", fm |-> "dst"],
  [op |-> "q_ident", sig |-> <<"E">>, g |-> "quat", fn |-> "fillid", fm |-> "dst"],
  [op |-> "q_conj", sig |-> <<"E">>, g |-> "quat", fn |-> "conj", fm |-> "ip"],
  [op |-> "q_conj_new", sig |-> <<"W", "V">>, g |-> "quat", fn |-> "conj", fm |-> "new"],
  [op |-> "q_mul", sig |-> <<"E", "V", "V">>, g |-> "quat", fn |-> "qmul", fm |-> "dst"],
  [op |-> "q_mul_new", sig |-> <<"W", "V", "V">>, g |-> "quat", fn |-> "qmul", fm |-> "new"],
  [op |-> "q_inv", sig |-> <<"E">>, g |-> "quat", fn |-> "qinv", fm |-> "ip"],
  [op |-> "q_dcm", sig |-> <<"R", "V">>, g |-> "rot", fn |-> "dcm", fm |-> "new"],
  [op |-> "q_rot", sig |-> <<"W", "V", "V">>, g |-> "rot", fn |-> "rot", fm |-> "new"],
  [op |-> "q_rot_ip", sig |-> <<"V", "E">>, g |-> "rot", fn |-> "rot", fm |-> "ip"],
  [op |-> "q_exp", sig |-> <<"E">>, g |-> "opq", fn |-> "qexp", fm |-> "ip"],
  [op |-> "q_exp_new", sig |-> <<"W", "V">>, g |-> "opq", fn |-> "qexp", fm |-> "new"],
  [op |-> "q_hughes", sig |-> <<"E", "M">>, g |-> "opq", fn |-> "todcm", fm |-> "dst"],
  [op |-> "q_chiav", sig |-> <<"E", "M">>, g |-> "opq", fn |-> "todcm", fm |-> "dst"],
  [op |-> "q_sarab", sig |-> <<"E", "M">>, g |-> "opq", fn |-> "todcm", fm |-> "dst"],
  [op |-> "q_euler", sig |-> <<"V">>, g |-> "opq", fn |-> "euler", fm |-> "get"],
  [op |-> "m_lr", sig |-> <<"M", "R", "R">>, g |-> "opq", fn |-> "factor", fm |-> "new"],
  [op |-> "m_crout", sig |-> <<"M", "R", "R">>, g |-> "opq", fn |-> "factor", fm |-> "new"],
  [op |-> "m_qr", sig |-> <<"M", "R", "R">>, g |-> "opq", fn |-> "factor", fm |-> "new"],
  [op |-> "m_chol", sig |-> <<"M", "R">>, g |-> "opq", fn |-> "factor", fm |-> "new"],
  [op |-> "m_inv", sig |-> <<"D">>, g |-> "opq", fn |-> "inv", fm |-> "ip"],
  [op |-> "m_adj", sig |-> <<"D">>, g |-> "opq", fn |-> "adj", fm |-> "ip"],
  [op |-> "m_log", sig |-> <<"M", "R">>, g |-> "opq", fn |-> "log", fm |-> "new"],
  [op |-> "m_log_ip", sig |-> <<"D">>, g |-> "opq", fn |-> "log", fm |-> "ip"],
  [op |-> "m_det", sig |-> <<"M">>, g |-> "opq", fn |-> "det", fm |-> "get"],
  [op |-> "m_detn", sig |-> <<"M">>, g |-> "opq", fn |-> "det", fm |-> "get"],
  [op |-> "m_sym", sig |-> <<"M">>, g |-> "opq", fn |-> "pred", fm |-> "get"],
  [op |-> "m_pd", sig |-> <<"M">>, g |-> "opq", fn |-> "pdpred", fm |-> "get"],
  [op |-> "m_up", sig |-> <<"M">>, g |-> "opq", fn |-> "tri", fm |-> "get"],
  [op |-> "m_lo", sig |-> <<"M">>, g |-> "opq", fn |-> "tri", fm |-> "get"],
  [op |-> "m_orth", sig |-> <<"M">>, g |-> "opq", fn |-> "pred", fm |-> "get"],
  [op |-> "m_son", sig |-> <<"M">>, g |-> "opq", fn |-> "pred", fm |-> "get"],
  [op |-> "lup", sig |-> <<"M", "R", "P">>, g |-> "opq", fn |-> "lup", fm |-> "new"],
  [op |-> "solve", sig |-> <<"M", "V", "U", "W">>, g |-> "opq", fn |-> "solve", fm |-> "new"],
  [op |-> "eigen", sig |-> <<"M", "i", "z", "W", "R">>, g |-> "opq", fn |-> "eigen", fm |-> "new"],
  [op |-> "m_dlyap", sig |-> <<"M", "M", "R">>, g |-> "opq", fn |-> "dlyap", fm |-> "new"],
  [op |-> "m_print", sig |-> <<"M">>, g |-> "show", fn |-> "print", fm |-> "get"],
  [op |-> "v_print", sig |-> <<"V">>, g |-> "show", fn |-> "print", fm |-> "get"]
}
===============================================================================
