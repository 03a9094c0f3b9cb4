// ---- mode c: a history of calls of the public C API, as a host would make them ----
// Each form is one command: fields separated by \x01 - name, destination slot, C stack depth, arguments.
// Values live in an array of a C stack frame, as the variables of a host program do.
struct Cmd {
  std::vector<std::string> f;
  const std::string &op() const { return f[0]; }
  int dst() const { return atoi(f[1].c_str()); }
  int depth() const { return atoi(f[2].c_str()); }
  const std::string &s(size_t i) const { return f[i + 3]; }
  long n(size_t i) const { return atol(s(i).c_str()); }
};
static SCM **slots;  // the array of the host's frame
static SCM *slot(const Cmd &c, size_t i) { return slots[c.n(i)]; }

static SCM *sym(const char *s) { return scm_from_locale_symbol(s); }
static void out_text(const char *s) { printf("\x1eV%s\x1f", s); }

// Handlers of nested catches
static SCM *h_key(void *, SCM *tag, SCM *) { return tag; }
static SCM *h_args(void *, SCM *tag, SCM *args) { return scm_cons(tag, args ? args : scm_nil()); }
static SCM *h_note(void *d, SCM *tag, SCM *) {
  printf("%s<", (const char *)d);
  print_ast(tag, true);
  printf(">");
  return scm_bool_true();
}
static SCM *b_call0(void *p) { return scm_call_0((SCM *)p); }

// The handler of the library that writes a message: its result and what it wrote
SCM *scm_c_open_output_string();
SCM *scm_c_get_output_string(SCM *);
SCM *scm_set_current_error_port(SCM *);
static SCM *h_msg(void *, SCM *tag, SCM *args) {
  SCM *port = scm_c_open_output_string();
  SCM *old = scm_set_current_error_port(port);
  SCM *r = scm_handle_by_message_noexit((void *)"prog", tag, args);
  scm_set_current_error_port(old);
  size_t n;
  char *s = scm_to_locale_stringn(scm_c_get_output_string(port), &n);
  std::string t(s, n), stack = "\n=== Evaluation Call Stack ===\n=== End of Call Stack ===\n";
  free(s);
  if (t.size() >= stack.size() && t.compare(t.size() - stack.size(), stack.size(), stack) == 0) t.resize(t.size() - stack.size());
  // the text of the library's own errors is not specified
  std::string key = is_sym(tag) ? cast<SCM_Symbol>(tag)->data : "";
  std::string head = "prog: uncaught throw to '" + key + ": ";
  if (key != "oops" && key != "my-error" && key != "stop" && key != "k1" && t.compare(0, head.size(), head) == 0) t = head;
  return scm_list2(r, scm_from_locale_stringn(t.data(), t.size()));
}

// ---- C functions registered as procedures ----
typedef SCM *(*gsubr)(void);
static SCM *g_c0() { printf("c0;"); return int_to_scm(7); }
static SCM *g_c1(SCM *a) { printf("c1;"); return scm_list1(a); }
static SCM *g_c2(SCM *a, SCM *b) { printf("c2;"); return scm_cons(b, a); }
static SCM *g_c3(SCM *a, SCM *b, SCM *c) { printf("c3;"); return scm_list3(c, b, a); }
static SCM *g_rest(SCM_List *l) {
  SCM *r = scm_nil();
  for (; l; l = l->next) r = scm_cons(l->data, r);
  return r;
}
static SCM *g_call(SCM *f, SCM *x) { return scm_call_1(f, x); }
static SCM *g_call2(SCM *f, SCM *x, SCM *y) { SCM *r = scm_call_2(f, x, y); printf("~"); return r; }
static SCM *g_apply(SCM *f, SCM *l) { SCM *r = scm_apply_0(f, l); printf("."); return r; }
static SCM *g_throw(SCM *k, SCM *a) { return scm_throw(k, a); }
static SCM *g_catch(SCM *tag, SCM *thunk) { return scm_c_catch(tag, b_call0, thunk, h_key, nullptr); }
static SCM *g_msg(SCM *tag, SCM *thunk) { return scm_c_catch(tag, b_call0, thunk, h_msg, nullptr); }
static SCM *g_lazy(SCM *tag, SCM *thunk) { return scm_c_with_throw_handler(tag, b_call0, thunk, h_note, (void *)"w", 0); }
static SCM *g_eval(SCM *x) { SCM *r = pscm_eval(x); return r ? r : sym("failed"); }
static SCM *g_evals(SCM *x) {
  size_t n;
  char *s = scm_to_locale_stringn(x, &n);
  std::string t(s, n);
  SCM *r = pscm_eval_string(t.c_str());
  return r ? r : sym(pscm_get_last_error_key());
}
static SCM *g_set(SCM *i, SCM *x) { slots[scm_to_int(i) & 15] = x; return x; }
static SCM *g_get(SCM *i) { return slots[scm_to_int(i) & 15]; }
static __attribute__((noinline)) SCM *g_depth(SCM *n, SCM *f) {
  volatile char pad[200];
  pad[0] = 1;
  int k = scm_to_int(n);
  if (k <= 0) return scm_call_0(f);
  SCM *r = g_depth(int_to_scm(k - 1), f);
  printf("%d", k);
  return r;
}
static SCM *g_sum(SCM *l) {  // walks a list from C
  long t = 0;
  if (is_pair(l))
    for (SCM_List *p = cast<SCM_List>(l); p; p = p->next)
      if (!p->is_dotted && is_num(p->data)) t += scm_to_int(p->data);
  return long_to_scm(t);
}
static void api_register() {
  pscm_c_define_gsubr("c0", 0, 0, 0, (gsubr)g_c0);
  pscm_c_define_gsubr("c1", 1, 0, 0, (gsubr)g_c1);
  pscm_c_define_gsubr("c2", 2, 0, 0, (gsubr)g_c2);
  pscm_c_define_gsubr("c3", 3, 0, 0, (gsubr)g_c3);
  pscm_c_define_gsubr("crest", 0, 0, 1, (gsubr)g_rest);
  pscm_c_define_gsubr("ccall", 2, 0, 0, (gsubr)g_call);
  pscm_c_define_gsubr("ccall2", 3, 0, 0, (gsubr)g_call2);
  pscm_c_define_gsubr("capply", 2, 0, 0, (gsubr)g_apply);
  pscm_c_define_gsubr("cthrow", 2, 0, 0, (gsubr)g_throw);
  pscm_c_define_gsubr("ccatch", 2, 0, 0, (gsubr)g_catch);
  pscm_c_define_gsubr("cmsg", 2, 0, 0, (gsubr)g_msg);
  pscm_c_define_gsubr("clazy", 2, 0, 0, (gsubr)g_lazy);
  pscm_c_define_gsubr("ceval", 1, 0, 0, (gsubr)g_eval);
  pscm_c_define_gsubr("cevals", 1, 0, 0, (gsubr)g_evals);
  pscm_c_define_gsubr("cset", 2, 0, 0, (gsubr)g_set);
  pscm_c_define_gsubr("cget", 1, 0, 0, (gsubr)g_get);
  pscm_c_define_gsubr("cdepth", 2, 0, 0, (gsubr)g_depth);
  pscm_c_define_gsubr("csum", 1, 0, 0, (gsubr)g_sum);
}

// ---- commands ----
static void keep(const Cmd &c, SCM *v) {
  if (v && is_variable(v)) out_text("#<variable>");
  else report(v);
  if (v && !is_none(v) && c.dst() >= 0) slots[c.dst()] = v;
}
static void api_result(const Cmd &c, SCM *v) {
  if (v) { keep(c, v); return; }
  const char *k = pscm_get_last_error_key();
  const char *m = pscm_get_last_error_message();
  printf("\x1e" "E%s\x1d%s\x1f", k ? k : "<nokey>", m ? m : "<nomsg>");
}

static SCM *mod_body(void *p) { return scm_c_eval_string((const char *)p); }
static const char *mod_init_text;
static void mod_init(void *p) { scm_c_eval_string((const char *)p); }

// What runs under the catch-all of the host
static SCM *api_body(void *p) {
  const Cmd &c = *(Cmd *)p;
  const std::string &o = c.op();
  if (o == "call") {
    size_t n = c.f.size() - 4;
    SCM *f = slot(c, 0);
    if (n == 0) return scm_call_0(f);
    if (n == 1) return scm_call_1(f, slot(c, 1));
    if (n == 2) return scm_call_2(f, slot(c, 1), slot(c, 2));
    return scm_call_3(f, slot(c, 1), slot(c, 2), slot(c, 3));
  }
  if (o == "apply") return scm_apply_0(slot(c, 0), slot(c, 1));
  if (o == "evalc") return scm_c_eval_string(c.s(0).c_str());
  if (o == "catch") {
    SCM *tag = c.s(0) == "#t" ? scm_bool_true() : sym(c.s(0).c_str());
    return scm_c_catch(tag, b_call0, slot(c, 1), c.s(2) == "k" ? h_key : c.s(2) == "m" ? h_msg : h_args, nullptr);
  }
  if (o == "lazy") {
    SCM *tag = c.s(0) == "#t" ? scm_bool_true() : sym(c.s(0).c_str());
    if (c.s(2) == "l") return scm_internal_lazy_catch(tag, b_call0, slot(c, 1), h_note, (void *)"l");
    return scm_c_with_throw_handler(tag, b_call0, slot(c, 1), h_note, (void *)"w", 0);
  }
  if (o == "throw") return scm_throw(sym(c.s(0).c_str()), slot(c, 1));
  if (o == "ithrow") return pscm_ithrow(sym(c.s(0).c_str()), slot(c, 1), 1);
  if (o == "lookup") return pscm_variable_ref(pscm_c_lookup(c.s(0).c_str()));
  if (o == "vref") return pscm_variable_ref(slot(c, 0));
  if (o == "vset") { scm_variable_set_x(slot(c, 0), slot(c, 1)); return scm_none(); }
  if (o == "vbound") return scm_variable_bound_p(slot(c, 0));
  if (o == "setcar") return scm_c_set_car(slot(c, 0), slot(c, 1));
  if (o == "setcdr") return scm_c_set_cdr(slot(c, 0), slot(c, 1));
  if (o == "append") {
    SCM_List *l = make_list(slot(c, 0));
    l->next = make_list(slot(c, 1));
    return scm_append(l);
  }
  if (o == "sym->str") return scm_symbol_to_string(slot(c, 0));
  if (o == "eq?") return scm_c_is_eq(slot(c, 0), slot(c, 1));
  if (o == "eqv?") return scm_c_is_eqv(slot(c, 0), slot(c, 1));
  if (o == "equal?") return scm_c_is_equal(slot(c, 0), slot(c, 1));
  if (o == "procedure?") return scm_c_is_procedure(slot(c, 0));
  if (o == "pair?") return scm_c_is_pair(slot(c, 0));
  if (o == "null?") return scm_c_is_null(slot(c, 0));
  if (o == "boolean?") return scm_c_is_boolean(slot(c, 0));
  if (o == "not") return scm_c_not(slot(c, 0));
  if (o == "make-hash-table") return scm_c_make_hash_table(int_to_scm(c.n(0)));
  if (o == "hashq-set!") return scm_c_hash_set_eq(slot(c, 0), slot(c, 1), slot(c, 2));
  if (o == "hashv-set!") return scm_c_hash_set_eqv(slot(c, 0), slot(c, 1), slot(c, 2));
  if (o == "hash-set!") return scm_c_hash_set_equal(slot(c, 0), slot(c, 1), slot(c, 2));
  if (o == "hashq-ref") return scm_c_hash_ref_eq(slot(c, 0), slot(c, 1));
  if (o == "hashv-ref") return scm_c_hash_ref_eqv(slot(c, 0), slot(c, 1));
  if (o == "hash-ref") return scm_c_hash_ref_equal(slot(c, 0), slot(c, 1));
  if (o == "hashq-get-handle") return scm_c_hash_get_handle_eq(slot(c, 0), slot(c, 1));
  if (o == "hashv-get-handle") return scm_c_hash_get_handle_eqv(slot(c, 0), slot(c, 1));
  if (o == "hash-get-handle") return scm_c_hash_get_handle_equal(slot(c, 0), slot(c, 1));
  if (o == "defmod") return scm_c_define_module(c.s(0).c_str(), c.s(1).empty() ? nullptr : mod_init, (void *)c.s(1).c_str());
  if (o == "resmod") return pscm_c_resolve_module(c.s(0).c_str());
  if (o == "moddef") { pscm_c_module_define(slot(c, 0), c.s(1).c_str(), slot(c, 2)); return scm_none(); }
  if (o == "modref") return pscm_variable_ref(pscm_c_module_lookup(slot(c, 0), c.s(1).c_str()));
  if (o == "modref2") return scm_variable_ref(scm_module_lookup(slot(c, 0), sym(c.s(1).c_str())));
  if (o == "usemod") { pscm_c_use_module(c.s(0).c_str()); return scm_none(); }
  if (o == "setmod") { pscm_c_set_current_module(slot(c, 0)); return scm_none(); }
  if (o == "curmod") return pscm_c_current_module();
  if (o == "inmod") return scm_c_call_with_current_module(slot(c, 0), mod_body, (void *)c.s(1).c_str());
  fprintf(stderr, "unknown command %s\n", o.c_str());
  _exit(9);
}

static __attribute__((noinline)) void api_guarded(Cmd *c) {
  caught = false;
  SCM *v = scm_c_catch(scm_bool_true(), api_body, c, handler_flag, nullptr);
  if (!caught) keep(*c, v);
}

static __attribute__((noinline)) void api_cmd(Cmd *cp) {
  const Cmd &c = *cp;
  const std::string &o = c.op();
  if (o == "eval") { api_result(c, pscm_eval_string(c.s(0).c_str())); return; }
  if (o == "evala") { SCM *ast = pscm_parse(c.s(0).c_str()); api_result(c, ast ? pscm_eval(ast) : nullptr); return; }
  if (o == "evalslot") { api_result(c, pscm_eval(slot(c, 0))); return; }
  if (o == "parse") { api_result(c, pscm_parse(c.s(0).c_str())); return; }
  if (o == "evalfile" || o == "parsefile") {
    FILE *f = fopen(c.s(0).c_str(), "wb");
    fwrite(c.s(1).data(), 1, c.s(1).size(), f);
    fclose(f);
    if (o == "evalfile") { api_result(c, pscm_eval_file(c.s(0).c_str())); return; }
    SCM_List *l = pscm_parse_file(c.s(0).c_str());
    if (!l) { api_result(c, nullptr); return; }
    for (; l; l = l->next) { api_result(c, pscm_eval(l->data)); fflush(stdout); }
    return;
  }
  if (o == "int") keep(c, int_to_scm(c.n(0)));
  else if (o == "long") keep(c, long_to_scm(c.n(0)));
  else if (o == "double") keep(c, c.n(1) ? double_to_scm(strtod(c.s(0).c_str(), nullptr)) : scm_from_double(strtod(c.s(0).c_str(), nullptr)));
  else if (o == "char") keep(c, scm_from_char((char)c.n(0)));
  else if (o == "bool") keep(c, c.n(0) ? scm_bool_true() : scm_bool_false());
  else if (o == "nil") keep(c, scm_nil());
  else if (o == "str") keep(c, c.n(1) == 0 ? scm_from_locale_stringn(c.s(0).data(), c.s(0).size())
                            : c.n(1) == 1 ? scm_from_c_string(c.s(0).data(), c.s(0).size()) : scm_from_locale_stringn(c.s(0).c_str(), (size_t)-1));
  else if (o == "sym") keep(c, c.n(1) == 0 ? scm_from_locale_symbol(c.s(0).c_str())
                            : c.n(1) == 1 ? scm_from_locale_symboln((c.s(0) + "junk").c_str(), c.s(0).size())
                            : c.n(1) == 2 ? scm_from_locale_symboln(c.s(0).c_str(), (size_t)-1) : wrap(make_sym(c.s(0).c_str())));
  else if (o == "cons") keep(c, scm_cons(slot(c, 0), slot(c, 1)));
  else if (o == "list1") keep(c, scm_list1(slot(c, 0)));
  else if (o == "list2") keep(c, scm_list2(slot(c, 0), slot(c, 1)));
  else if (o == "list3") keep(c, scm_list3(slot(c, 0), slot(c, 1), slot(c, 2)));
  else if (o == "def") { pscm_c_define(c.s(0).c_str(), slot(c, 1)); out_text("defined"); }
  else if (o == "show") keep(c, slot(c, 0));
  else if (o == "nth") {
    SCM_List *l = cast<SCM_List>(slot(c, 0));
    for (long i = c.n(1); i > 0; i--) l = l->next;
    keep(c, l->data);
  }
  else if (o == "walk") {
    long k = 0, dots = 0;
    for (SCM_List *l = cast<SCM_List>(slot(c, 0)); l; l = l->next, k++) dots += l->is_dotted;
    printf("\x1eV%ld,%ld\x1f", k, dots);
  }
  else if (o == "toint") printf("\x1eV%d\x1f", scm_to_int(slot(c, 0)));
  else if (o == "todouble") printf("\x1eV%.17g\x1f", scm_to_double(slot(c, 0)));
  else if (o == "tochar") printf("\x1eV%d\x1f", (unsigned char)scm_to_char(slot(c, 0)));
  else if (o == "tobool") printf("\x1eV%d\x1f", (int)scm_to_bool(slot(c, 0)));
  else if (o == "tostr") {
    size_t n = 0;
    char *s = scm_to_locale_stringn(slot(c, 0), c.n(1) ? &n : nullptr);
    if (!c.n(1)) n = strlen(s);
    printf("\x1eV%zu:", n);
    for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]);
    printf("\x1f");
  }
  else if (o == "symname") printf("\x1eV%s\x1f", cast<SCM_Symbol>(slot(c, 0))->data);
  else if (o == "mkvar") keep(c, pscm_make_variable(slot(c, 0)));
  else if (o == "mkundef") keep(c, pscm_make_undefined_variable());
  else if (o == "churn") {
    for (long i = c.n(0); i > 0; i--) scm_list3(int_to_scm(i), scm_from_c_string("garbage", 7), scm_nil());
    out_text("churned");
  }
  else api_guarded(cp);
}

static __attribute__((noinline)) void api_deeper(Cmd *c, int d) {
  volatile char pad[600];
  pad[0] = 1;
  if (d <= 0) api_cmd(c);
  else api_deeper(c, d - 1);
  pad[1] = 2;
}

static __attribute__((noinline)) void run_api(std::vector<std::string> &forms) {
  SCM *s[16];
  for (auto &x : s) x = scm_nil();
  slots = s;
  api_register();
  static std::vector<Cmd *> all;  // never freed: continuations may keep pointers to them
  for (auto &f : forms) {
    Cmd *c = new Cmd;
    size_t p = 0;
    for (;;) {
      size_t q = f.find('\x01', p);
      c->f.push_back(f.substr(p, q == std::string::npos ? q : q - p));
      if (q == std::string::npos) break;
      p = q + 1;
    }
    all.push_back(c);
  }
  for (size_t i = 0; i < all.size(); i++) {
    api_deeper(all[i], all[i]->depth());
    fflush(stdout);
  }
}
