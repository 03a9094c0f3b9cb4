// The interpreter renders every call into tmpfile(); an in-memory stream has the same behaviour and
// keeps the disk out of it.
struct MemFile { std::string d; size_t pos = 0; };
extern "C" FILE *tmpfile() {
  cookie_io_functions_t io;
  io.read = [](void *c, char *b, size_t n) -> ssize_t {
    MemFile *m = (MemFile *)c;
    size_t a = m->pos < m->d.size() ? m->d.size() - m->pos : 0;
    if (n > a) n = a;
    memcpy(b, m->d.data() + m->pos, n);
    m->pos += n;
    return n;
  };
  io.write = [](void *c, const char *b, size_t n) -> ssize_t {
    MemFile *m = (MemFile *)c;
    if (m->d.size() < m->pos + n) m->d.resize(m->pos + n);
    memcpy(&m->d[m->pos], b, n);
    m->pos += n;
    return n;
  };
  io.seek = [](void *c, off64_t *o, int w) -> int {
    MemFile *m = (MemFile *)c;
    off64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->d.size();
    if (base + *o < 0) return -1;
    m->pos = *o = base + *o;
    return 0;
  };
  io.close = [](void *c) -> int { delete (MemFile *)c; return 0; };
  return fopencookie(new MemFile, "w+", io);
}

