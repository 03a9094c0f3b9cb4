// Fork-server driver around the interpreter: evaluates batches of Scheme forms in a forked child
// and reports, per top-level form, the value (write format) or the thrown key.
//
// Request  (stdin):  "<mode> <timeout_ms> <n>\n" then n times "<len>\n<bytes>"
//   mode is a word of option letters:
//     p  each form's text is handed to pscm_parse (one datum), evaluated under a catch-all
//     f  form 0 is a file name: parse it as a file, evaluate every expression under a catch-all
//     a  C-API mode: every form goes through pscm_eval_string and the last-error accessors
//     c  a history of C API calls (see api.inc); nothing is told about the stack
//     r  reader mode: parse the text, write the datum, never evaluate
//     gN collect garbage on every N-th allocation    P  poison swept blocks (both: GCSTRESS builds only)
//     M  report the peak memory use
// Response (stdout): "<status> <len>\n<bytes>"; status: 0 done, sN signal, eN exit code, t timeout, i incomplete
#include "pscm_api.h"
#include "throw.h"
#include "gc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

SCM *eval(SCM *ast) { return pscm_eval(ast); }

#ifndef GCSTRESS
#define GCSTRESS 0
#endif
static long gc_every = 0, gc_count = 0;
static long poisoned = 0, collections = 0;
#if GCSTRESS
// ---- GC stress: linked with -Wl,--wrap=<mangled gc_alloc>; only public GC entry points are used ----
static SweepFn orig_sweep[GC_TYPE_COUNT];

template <int T> static void poison_sweep(GCBlock *b) {
  if (orig_sweep[T]) orig_sweep[T](b);
  b->type_tag = GC_NUMBER; // neither traced nor swept again
  memset(block_to_obj(b), 0xA5, b->size);
  poisoned++;
}
template <int T> static void install_poison() {
  if constexpr (T < GC_TYPE_COUNT) {
    if (T != GC_NUMBER) {
      orig_sweep[T] = sweep_fns[T];
      sweep_fns[T] = poison_sweep<T>;
    }
    install_poison<T + 1>();
  }
}
extern "C" void *__real__Z8gc_alloc7TypeTagm(TypeTag tag, size_t size);
extern "C" void *__wrap__Z8gc_alloc7TypeTagm(TypeTag tag, size_t size) {
  if (gc_every && ++gc_count % gc_every == 0) {
    run_gc();
    collections++;
  }
  return __real__Z8gc_alloc7TypeTagm(tag, size);
}
#endif

#include "memfile.inc"

// ---- child ----
static SCM *rec_handler(void *, SCM *tag, SCM *args) {
  printf("\x1e" "E");
  print_ast(tag, true);
  printf("\x1d");
  if (args) print_ast(args, true);
  printf("\x1f");
  return nullptr;
}
SCM_Environment *scm_toplevel_env() __attribute__((weak));
static SCM *body_eval(void *p) { return eval_with_env(scm_toplevel_env ? scm_toplevel_env() : &g_env, (SCM *)p); }
static bool caught;
static SCM *handler_flag(void *d, SCM *t, SCM *a) { caught = true; return rec_handler(d, t, a); }
static SCM *body_parse(void *p) { return parse((const char *)p); }

static void report(SCM *v) {
  if (!v) { printf("\x1eU\x1f"); return; }
  if (is_none(v)) { printf("\x1eN\x1f"); return; }
  printf("\x1eV");
  print_ast(v, true);
  printf("\x1f");
}
static void eval_form(SCM *ast) {
  caught = false;
  SCM *v = scm_c_catch(scm_bool_true(), body_eval, ast, handler_flag, nullptr);
  if (!caught) report(v);
}

#include "api.inc"

static void run_child(const char *mode, std::vector<std::string> &forms) {
  long base;
  if (strchr(mode, 'c')) {
    cont_base = nullptr;
    gc_set_stack_top(nullptr);
    run_api(forms);
  } else if (strchr(mode, 'f')) {
    struct R { const char *n; SCM_List *l; } r{forms[0].c_str(), nullptr};
    caught = false;
    scm_c_catch(scm_bool_true(), [](void *p) -> SCM * { R *r = (R *)p; r->l = parse_file(r->n); return nullptr; }, &r, handler_flag, nullptr);
    if (!caught && !r.l) printf("\x1e" "X\x1f");
    for (SCM_List *l = r.l; l; l = l->next) {
      eval_form(l->data);
      fflush(stdout);
    }
  } else if (strchr(mode, 'a')) {
    for (auto &f : forms) {
      SCM *v = pscm_eval_string(f.c_str());
      if (v) {
        report(v);
      } else {
        const char *k = pscm_get_last_error_key();
        const char *m = pscm_get_last_error_message();
        printf("\x1e" "E%s\x1d%s\x1f", k ? k : "<nokey>", m ? m : "<nomsg>");
      }
      fflush(stdout);
    }
  } else {
    bool reader = strchr(mode, 'r') != nullptr;
    for (auto &f : forms) {
      caught = false;
      SCM *ast = scm_c_catch(scm_bool_true(), body_parse, (void *)f.c_str(), handler_flag, nullptr);
      if (caught) {
      } else if (!ast) {
        printf("\x1e" "X\x1f");
      } else if (reader) {
        report(ast);
      } else {
        eval_form(ast);
      }
      fflush(stdout);
    }
  }
  if (strchr(mode, 'g') || strchr(mode, 'M')) {
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    printf("\x1eG%ld %ld %ld %ld\x1f", collections, poisoned, gc_count, ru.ru_maxrss);
  }
  printf("\x1e" "D\x1f");
  fflush(stdout);
  (void)base;
}

static bool read_n(char *b, size_t n) { return n == 0 || fread(b, 1, n, stdin) == n; }

extern void driver_extra_init();
int main(int argc, char **argv) {
  long marker;
  gc_set_stack_top(&marker);
  cont_base = &marker;
  int out = dup(1);
  int devnull = open("/dev/null", O_WRONLY);
  if (!getenv("DRV_STDERR")) dup2(devnull, 2);
  dup2(devnull, 1);
  pscm_init();
  char line[256];
  while (fgets(line, sizeof line, stdin)) {
    char mode[64];
    int timeout_ms, n;
    if (sscanf(line, "%63s %d %d", mode, &timeout_ms, &n) != 3) return 3;
    std::vector<std::string> forms;
    for (int i = 0; i < n; i++) {
      if (!fgets(line, sizeof line, stdin)) return 3;
      size_t len = strtoul(line, nullptr, 10);
      std::string s(len, '\0');
      if (!read_n(&s[0], len)) return 3;
      forms.push_back(s);
    }
    int mfd = memfd_create("out", 0);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      dup2(mfd, 1);
      struct rlimit rl = {512u << 20, 512u << 20};
      setrlimit(RLIMIT_FSIZE, &rl);
      rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
#if !__has_feature(address_sanitizer)
      rl = {3ul << 30, 3ul << 30};
      setrlimit(RLIMIT_AS, &rl);
#endif
      struct itimerval it = {};
      it.it_value.tv_sec = timeout_ms / 1000;
      it.it_value.tv_usec = (timeout_ms % 1000) * 1000;
      signal(SIGPROF, SIG_DFL);
      setitimer(ITIMER_PROF, &it, nullptr); // CPU time, so machine load cannot fake a hang
      dup2(open("/dev/null", O_RDONLY), 0);
#if GCSTRESS
      if (strchr(mode, 'P')) install_poison<0>();
      if (const char *g = strchr(mode, 'g')) { gc_every = atol(g + 1); run_gc(); }
#endif
      run_child(mode, forms);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    off_t len = lseek(mfd, 0, SEEK_END);
    std::string data(len > 0 ? len : 0, '\0');
    if (len > 0 && pread(mfd, &data[0], len, 0) != len) data.clear();
    close(mfd);
    char status[32];
    bool done = data.size() >= 3 && data.compare(data.size() - 3, 3, "\x1e" "D\x1f") == 0;
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGPROF) strcpy(status, "t");
      else snprintf(status, sizeof status, "s%d", WTERMSIG(st));
    } else if (WEXITSTATUS(st) != 0 || !done) {
      snprintf(status, sizeof status, "e%d", WEXITSTATUS(st));
    } else {
      strcpy(status, "0");
    }
    dprintf(out, "%s %zu\n", status, data.size());
    size_t off = 0;
    while (off < data.size()) {
      ssize_t w = write(out, data.data() + off, data.size() - off);
      if (w <= 0) return 4;
      off += w;
    }
  }
  return 0;
}
