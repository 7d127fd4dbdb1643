// Interposes the C library's file operations and the Exodus functions.  See faults.h.
#include "faults.h"

#include <dlfcn.h>
#include <errno.h>
#include <exodusII.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <map>

namespace faults {
static Shared* S = nullptr;
Shared*
shared()
{
  if (!S) S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return S;
}
void
unshare()
{
  S = nullptr;
  shared();
}
void
reset()
{
  Shared* s = shared();
  s->nsys = s->nex = s->nops = 0;
  s->fired                   = false;
  s->ex_errors = s->nclosed = 0;
  s->first_error[0]          = 0;
  s->during[0]               = 0;
  s->during_ret              = -99;
}
int
planes(const std::string& file)
{
  Shared* s = shared();
  for (int i = 0; i < s->nclosed; i++)
    if (file == s->closed[i].file) return s->closed[i].n;
  return 0;
}
}  // namespace faults
using namespace faults;
static bool   armed = false;
static Config C;
static int    depth = 0;
static char   tracked[1024];          // fd -> 1 + index of its name
static char   fdname[1024][40];
static bool   failing[256];
static std::map<std::string, int>* begun;  // file -> last time plane begun
static std::map<int, std::string>* writers;  // Exodus file id -> file opened for writing

void
faults::arm(const Config& c)
{
  C       = c;
  writers = new std::map<int, std::string>();
  begun   = new std::map<std::string, int>();
  armed   = true;
}
static const char*
base(const char* p)
{
  const char* q = strrchr(p, '/');
  return q ? q + 1 : p;
}
static bool
ours(const char* p)
{
  const char* b = base(p);
  return strncmp(b, "m.g", 3) == 0 || strncmp(b, "m.out", 5) == 0 || strncmp(b, "m.e", 3) == 0;
}
static void
record(char kind, const char* file, int len)
{
  Shared* s = shared();
  if (s->nops < sizeof(s->ops) / sizeof(s->ops[0])) {
    Op& o = s->ops[s->nops++];
    o.kind = kind;
    o.len  = len;
    strncpy(o.file, file, sizeof o.file - 1);
    o.file[sizeof o.file - 1] = 0;
  }
}
// counts a file operation; true when it has to fail (errno set)
static bool
fails(char kind, const char* file, int len)
{
  Shared*  s = shared();
  uint64_t i = s->nsys++;
  record(kind, file, len);
  if (C.mode == Config::KILL && i == C.index && kind != 'w') {
    s->fired = true;
    kill(getpid(), SIGKILL);
    for (;;) pause();
  }
  if (C.mode == Config::SYSFAIL && (i == C.index || (C.sticky && failing[(unsigned char)kind]))) {
    s->fired                     = true;
    failing[(unsigned char)kind] = true;
    errno                        = C.err;
    return true;
  }
  return false;
}
template <typename F>
static F
next(const char* n)
{
  return (F)dlsym(RTLD_NEXT, n);
}
static int
opened(int fd, const char* p)
{
  if (fd >= 0 && fd < 1024) {
    tracked[fd] = 1;
    strncpy(fdname[fd], base(p), 39);
  }
  return fd;
}
static int
do_open(const char* name, const char* p, int flags, mode_t m)
{
  typedef int (*F)(const char*, int, ...);
  static F r = next<F>("open64");
  if (!armed || !ours(p)) return r(p, flags, m);
  if (fails(flags & (O_TRUNC | O_CREAT) ? 'c' : 'o', base(p), flags)) return -1;
  return opened(r(p, flags, m), p);
}
extern "C" int
open64(const char* p, int flags, ...)
{
  va_list a;
  va_start(a, flags);
  mode_t m = va_arg(a, int);
  va_end(a);
  return do_open("open64", p, flags, m);
}
extern "C" int
open(const char* p, int flags, ...)
{
  va_list a;
  va_start(a, flags);
  mode_t m = va_arg(a, int);
  va_end(a);
  return do_open("open", p, flags, m);
}
extern "C" int
creat(const char* p, mode_t m)
{
  return do_open("creat", p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
static bool
is(int fd)
{
  return armed && fd >= 0 && fd < 1024 && tracked[fd];
}
static ssize_t real_write(int fd, const void* b, size_t n) { typedef ssize_t (*F)(int, const void*, size_t); static F r = next<F>("write"); return r(fd, b, n); }
static bool
write_op(int fd, size_t n, size_t& part, bool& die)
{
  Shared*  s = shared();
  uint64_t i = s->nsys;
  die        = false;
  if (C.mode == Config::KILL && i == C.index) {
    s->nsys++;
    record('w', fdname[fd], n);
    s->fired = true;
    part     = C.prefix < (int)n ? C.prefix : n;
    die      = true;
    return true;
  }
  if (fails('w', fdname[fd], n)) {
    part = i == C.index ? (C.prefix < (int)n ? C.prefix : n) : 0;
    return true;
  }
  return false;
}
extern "C" ssize_t
write(int fd, const void* b, size_t n)
{
  if (!is(fd)) return real_write(fd, b, n);
  size_t part = 0;
  bool   die  = false;
  if (write_op(fd, n, part, die)) {
    int     e = errno;
    ssize_t k = part ? real_write(fd, b, part) : 0;
    if (die) {
      kill(getpid(), SIGKILL);
      for (;;) pause();
    }
    errno = e;
    return part ? k : -1;
  }
  return real_write(fd, b, n);
}
extern "C" ssize_t
pwrite64(int fd, const void* b, size_t n, off_t o)
{
  typedef ssize_t (*F)(int, const void*, size_t, off_t);
  static F r = next<F>("pwrite64");
  if (!is(fd)) return r(fd, b, n, o);
  size_t part = 0;
  bool   die  = false;
  if (write_op(fd, n, part, die)) {
    int     e = errno;
    ssize_t k = part ? r(fd, b, part, o) : 0;
    if (die) {
      kill(getpid(), SIGKILL);
      for (;;) pause();
    }
    errno = e;
    return part ? k : -1;
  }
  return r(fd, b, n, o);
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
extern "C" ssize_t
read(int fd, void* b, size_t n)
{
  typedef ssize_t (*F)(int, void*, size_t);
  static F r = next<F>("read");
  if (is(fd) && fails('r', fdname[fd], n)) return errno ? -1 : 0;
  return r(fd, b, n);
}
extern "C" ssize_t
pread64(int fd, void* b, size_t n, off_t o)
{
  typedef ssize_t (*F)(int, void*, size_t, off_t);
  static F r = next<F>("pread64");
  if (is(fd) && fails('r', fdname[fd], n)) return errno ? -1 : 0;
  return r(fd, b, n, o);
}
extern "C" off_t
lseek64(int fd, off_t o, int w)
{
  typedef off_t (*F)(int, off_t, int);
  static F r = next<F>("lseek64");
  if (is(fd) && fails('s', fdname[fd], 0)) return -1;
  return r(fd, o, w);
}
extern "C" off_t
lseek(int fd, off_t o, int w)
{
  typedef off_t (*F)(int, off_t, int);
  static F r = next<F>("lseek");
  if (is(fd) && fails('s', fdname[fd], 0)) return -1;
  return r(fd, o, w);
}
extern "C" int
ftruncate64(int fd, off_t n)
{
  typedef int (*F)(int, off_t);
  static F r = next<F>("ftruncate64");
  if (is(fd) && fails('t', fdname[fd], n)) return -1;
  return r(fd, n);
}
extern "C" int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
extern "C" int
fsync(int fd)
{
  typedef int (*F)(int);
  static F r = next<F>("fsync");
  if (is(fd) && fails('f', fdname[fd], 0)) return -1;
  return r(fd);
}
extern "C" int
close(int fd)
{
  typedef int (*F)(int);
  static F r = next<F>("close");
  if (is(fd)) {
    bool f      = fails('x', fdname[fd], 0);
    int  e      = errno;
    tracked[fd] = 0;
    int k       = r(fd);
    if (f) {
      errno = e;
      return -1;
    }
    return k;
  }
  return r(fd);
}
extern "C" int
unlink(const char* p)
{
  typedef int (*F)(const char*);
  static F r = next<F>("unlink");
  if (armed && ours(p) && fails('u', base(p), 0)) return -1;
  return r(p);
}
extern "C" int
rename(const char* p, const char* q)
{
  typedef int (*F)(const char*, const char*);
  static F r = next<F>("rename");
  if (armed && (ours(p) || ours(q)) && fails('n', base(q), 0)) return -1;
  return r(p, q);
}

template <typename F>
static int
excall(const char* name, F real)
{
  if (depth) return real();
  Shared*  s = shared();
  uint64_t i = s->nex++;
  record('E', name, 0);
  int  ret  = 0;
  bool fail = C.mode == Config::EXFAIL && i == C.index;
  if (!fail || C.perform) {
    depth++;
    bool was = s->fired;
    ret      = real();
    depth--;
    if (s->fired && !was) {
      strncpy(s->during, name, sizeof s->during - 1);
      s->during_ret = ret;
    }
  }
  if (fail) {
    s->fired = true;
    ret      = C.err;
  }
  if (ret < 0) {
    if (!s->ex_errors) strncpy(s->first_error, name, sizeof s->first_error - 1);
    s->ex_errors++;
  }
  return ret;
}
extern "C" int
ex_open_int(const char* path, int mode, int* cw, int* iw, float* version, int my)
{
  typedef int (*F)(const char*, int, int*, int*, float*, int);
  static F real = (F)dlsym(RTLD_NEXT, "ex_open_int");
  if (!armed) return real(path, mode, cw, iw, version, my);
  int id = excall("ex_open", [&] { return real(path, mode, cw, iw, version, my); });
  if (!depth && id >= 0 && (mode & EX_WRITE)) (*writers)[id] = base(path);
  return id;
}
extern "C" int
ex_create_int(const char* path, int mode, int* cw, int* iw, int my)
{
  typedef int (*F)(const char*, int, int*, int*, int);
  static F real = (F)dlsym(RTLD_NEXT, "ex_create_int");
  if (!armed) return real(path, mode, cw, iw, my);
  int id = excall("ex_create", [&] { return real(path, mode, cw, iw, my); });
  if (!depth && id >= 0) (*writers)[id] = base(path);
  return id;
}
static void
completed(const std::string& f, int n)
{
  Shared* s = shared();
  int     k = 0;
  while (k < s->nclosed && f != s->closed[k].file) k++;
  if (k == s->nclosed && k < 16) {
    strncpy(s->closed[k].file, f.c_str(), 59);
    s->closed[k].n = 0;
    s->nclosed++;
  }
  if (k < 16 && s->closed[k].n < n) s->closed[k].n = n;
}
extern "C" int
ex_close(int exoid)
{
  typedef int (*F)(int);
  static F real = (F)dlsym(RTLD_NEXT, "ex_close");
  if (!armed) return real(exoid);
  bool top = !depth;
  int  r   = excall("ex_close", [&] { return real(exoid); });
  if (top && r >= 0 && writers->count(exoid)) {
    std::string f = (*writers)[exoid];
    completed(f, (*begun)[f]);
    writers->erase(exoid);
  }
  return r;
}
extern "C" int
ex_get_block(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, char *elem_type, void_int *num_entries_this_blk, void_int *num_nodes_per_entry, void_int *num_edges_per_entry, void_int *num_faces_per_entry, void_int *num_attr_per_entry)
{
  typedef int (*F)(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, char *elem_type, void_int *num_entries_this_blk, void_int *num_nodes_per_entry, void_int *num_edges_per_entry, void_int *num_faces_per_entry, void_int *num_attr_per_entry);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_block");
  if (!armed) return real(exoid, blk_type, blk_id, elem_type, num_entries_this_blk, num_nodes_per_entry, num_edges_per_entry, num_faces_per_entry, num_attr_per_entry);
  return excall("ex_get_block", [&] { return real(exoid, blk_type, blk_id, elem_type, num_entries_this_blk, num_nodes_per_entry, num_edges_per_entry, num_faces_per_entry, num_attr_per_entry); });
}

extern "C" int
ex_get_conn(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, void_int *nodeconn, void_int *edgeconn, void_int *faceconn)
{
  typedef int (*F)(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, void_int *nodeconn, void_int *edgeconn, void_int *faceconn);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_conn");
  if (!armed) return real(exoid, blk_type, blk_id, nodeconn, edgeconn, faceconn);
  return excall("ex_get_conn", [&] { return real(exoid, blk_type, blk_id, nodeconn, edgeconn, faceconn); });
}

extern "C" int
ex_get_coord(int exoid, void *x_coor, void *y_coor, void *z_coor)
{
  typedef int (*F)(int exoid, void *x_coor, void *y_coor, void *z_coor);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_coord");
  if (!armed) return real(exoid, x_coor, y_coor, z_coor);
  return excall("ex_get_coord", [&] { return real(exoid, x_coor, y_coor, z_coor); });
}

extern "C" int
ex_get_id_map(int exoid, ex_entity_type obj_type, void_int *map)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, void_int *map);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_id_map");
  if (!armed) return real(exoid, obj_type, map);
  return excall("ex_get_id_map", [&] { return real(exoid, obj_type, map); });
}

extern "C" int
ex_get_ids(int exoid, ex_entity_type obj_type, void_int *ids)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, void_int *ids);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_ids");
  if (!armed) return real(exoid, obj_type, ids);
  return excall("ex_get_ids", [&] { return real(exoid, obj_type, ids); });
}

extern "C" int
ex_get_init(int exoid, char *title, void_int *num_dim, void_int *num_nodes, void_int *num_elem, void_int *num_elem_blk, void_int *num_node_sets, void_int *num_side_sets)
{
  typedef int (*F)(int exoid, char *title, void_int *num_dim, void_int *num_nodes, void_int *num_elem, void_int *num_elem_blk, void_int *num_node_sets, void_int *num_side_sets);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_init");
  if (!armed) return real(exoid, title, num_dim, num_nodes, num_elem, num_elem_blk, num_node_sets, num_side_sets);
  return excall("ex_get_init", [&] { return real(exoid, title, num_dim, num_nodes, num_elem, num_elem_blk, num_node_sets, num_side_sets); });
}

extern "C" int
ex_get_map_param(int exoid, int *num_node_maps, int *num_elem_maps)
{
  typedef int (*F)(int exoid, int *num_node_maps, int *num_elem_maps);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_map_param");
  if (!armed) return real(exoid, num_node_maps, num_elem_maps);
  return excall("ex_get_map_param", [&] { return real(exoid, num_node_maps, num_elem_maps); });
}

extern "C" int
ex_get_name(int exoid, ex_entity_type obj_type, ex_entity_id entity_id, char *name)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, ex_entity_id entity_id, char *name);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_name");
  if (!armed) return real(exoid, obj_type, entity_id, name);
  return excall("ex_get_name", [&] { return real(exoid, obj_type, entity_id, name); });
}

extern "C" int
ex_get_num_map(int exoid, ex_entity_type map_type, ex_entity_id map_id, void_int *map)
{
  typedef int (*F)(int exoid, ex_entity_type map_type, ex_entity_id map_id, void_int *map);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_num_map");
  if (!armed) return real(exoid, map_type, map_id, map);
  return excall("ex_get_num_map", [&] { return real(exoid, map_type, map_id, map); });
}

extern "C" int
ex_get_set(int exoid, ex_entity_type set_type, ex_entity_id set_id, void_int *set_entry_list, void_int *set_extra_list)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, void_int *set_entry_list, void_int *set_extra_list);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_set");
  if (!armed) return real(exoid, set_type, set_id, set_entry_list, set_extra_list);
  return excall("ex_get_set", [&] { return real(exoid, set_type, set_id, set_entry_list, set_extra_list); });
}

extern "C" int
ex_get_set_dist_fact(int exoid, ex_entity_type set_type, ex_entity_id set_id, void *set_dist_fact)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, void *set_dist_fact);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_set_dist_fact");
  if (!armed) return real(exoid, set_type, set_id, set_dist_fact);
  return excall("ex_get_set_dist_fact", [&] { return real(exoid, set_type, set_id, set_dist_fact); });
}

extern "C" int
ex_get_set_param(int exoid, ex_entity_type set_type, ex_entity_id set_id, void_int *num_entry_in_set, void_int *num_dist_fact_in_set)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, void_int *num_entry_in_set, void_int *num_dist_fact_in_set);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_set_param");
  if (!armed) return real(exoid, set_type, set_id, num_entry_in_set, num_dist_fact_in_set);
  return excall("ex_get_set_param", [&] { return real(exoid, set_type, set_id, num_entry_in_set, num_dist_fact_in_set); });
}

extern "C" int
ex_put_block(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, const char *entry_descrip, int64_t num_entries_this_blk, int64_t num_nodes_per_entry, int64_t num_edges_per_entry, int64_t num_faces_per_entry, int64_t num_attr_per_entry)
{
  typedef int (*F)(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, const char *entry_descrip, int64_t num_entries_this_blk, int64_t num_nodes_per_entry, int64_t num_edges_per_entry, int64_t num_faces_per_entry, int64_t num_attr_per_entry);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_block");
  if (!armed) return real(exoid, blk_type, blk_id, entry_descrip, num_entries_this_blk, num_nodes_per_entry, num_edges_per_entry, num_faces_per_entry, num_attr_per_entry);
  return excall("ex_put_block", [&] { return real(exoid, blk_type, blk_id, entry_descrip, num_entries_this_blk, num_nodes_per_entry, num_edges_per_entry, num_faces_per_entry, num_attr_per_entry); });
}

extern "C" int
ex_put_concat_sets(int exoid, ex_entity_type set_type, const struct ex_set_specs *set_specs)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, const struct ex_set_specs *set_specs);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_concat_sets");
  if (!armed) return real(exoid, set_type, set_specs);
  return excall("ex_put_concat_sets", [&] { return real(exoid, set_type, set_specs); });
}

extern "C" int
ex_put_conn(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, const void_int *node_conn, const void_int *elem_edge_conn, const void_int *elem_face_conn)
{
  typedef int (*F)(int exoid, ex_entity_type blk_type, ex_entity_id blk_id, const void_int *node_conn, const void_int *elem_edge_conn, const void_int *elem_face_conn);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_conn");
  if (!armed) return real(exoid, blk_type, blk_id, node_conn, elem_edge_conn, elem_face_conn);
  return excall("ex_put_conn", [&] { return real(exoid, blk_type, blk_id, node_conn, elem_edge_conn, elem_face_conn); });
}

extern "C" int
ex_put_coord(int exoid, const void *x_coor, const void *y_coor, const void *z_coor)
{
  typedef int (*F)(int exoid, const void *x_coor, const void *y_coor, const void *z_coor);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_coord");
  if (!armed) return real(exoid, x_coor, y_coor, z_coor);
  return excall("ex_put_coord", [&] { return real(exoid, x_coor, y_coor, z_coor); });
}

extern "C" int
ex_put_coord_names(int exoid, char *coord_names[])
{
  typedef int (*F)(int exoid, char *coord_names[]);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_coord_names");
  if (!armed) return real(exoid, coord_names);
  return excall("ex_put_coord_names", [&] { return real(exoid, coord_names); });
}

extern "C" int
ex_put_id_map(int exoid, ex_entity_type obj_type, const void_int *map)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, const void_int *map);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_id_map");
  if (!armed) return real(exoid, obj_type, map);
  return excall("ex_put_id_map", [&] { return real(exoid, obj_type, map); });
}

extern "C" int
ex_put_init(int exoid, const char *title, int64_t num_dim, int64_t num_nodes, int64_t num_elem, int64_t num_elem_blk, int64_t num_node_sets, int64_t num_side_sets)
{
  typedef int (*F)(int exoid, const char *title, int64_t num_dim, int64_t num_nodes, int64_t num_elem, int64_t num_elem_blk, int64_t num_node_sets, int64_t num_side_sets);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_init");
  if (!armed) return real(exoid, title, num_dim, num_nodes, num_elem, num_elem_blk, num_node_sets, num_side_sets);
  return excall("ex_put_init", [&] { return real(exoid, title, num_dim, num_nodes, num_elem, num_elem_blk, num_node_sets, num_side_sets); });
}

extern "C" int
ex_put_names(int exoid, ex_entity_type obj_type, char *names[])
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, char *names[]);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_names");
  if (!armed) return real(exoid, obj_type, names);
  return excall("ex_put_names", [&] { return real(exoid, obj_type, names); });
}

extern "C" int
ex_put_qa(int exoid, int num_qa_records, char* qa_record[][4])
{
  typedef int (*F)(int exoid, int num_qa_records, char* qa_record[][4]);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_qa");
  if (!armed) return real(exoid, num_qa_records, qa_record);
  return excall("ex_put_qa", [&] { return real(exoid, num_qa_records, qa_record); });
}

extern "C" int
ex_put_time(int exoid, int time_step, const void *time_value)
{
  typedef int (*F)(int exoid, int time_step, const void *time_value);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_time");
  if (!armed) return real(exoid, time_step, time_value);
  if (!depth && writers->count(exoid)) {
    std::string f = (*writers)[exoid];
    completed(f, time_step - 1);  // the program has gone on to the next plane
    (*begun)[f] = time_step;
  }
  return excall("ex_put_time", [&] { return real(exoid, time_step, time_value); });
}

extern "C" int
ex_put_var(int exoid, int time_step, ex_entity_type var_type, int var_index, ex_entity_id obj_id, int64_t num_entries_this_obj, const void *var_vals)
{
  typedef int (*F)(int exoid, int time_step, ex_entity_type var_type, int var_index, ex_entity_id obj_id, int64_t num_entries_this_obj, const void *var_vals);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_var");
  if (!armed) return real(exoid, time_step, var_type, var_index, obj_id, num_entries_this_obj, var_vals);
  return excall("ex_put_var", [&] { return real(exoid, time_step, var_type, var_index, obj_id, num_entries_this_obj, var_vals); });
}

extern "C" int
ex_put_variable_names(int exoid, ex_entity_type obj_type, int num_vars, char* var_names[])
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, int num_vars, char* var_names[]);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_variable_names");
  if (!armed) return real(exoid, obj_type, num_vars, var_names);
  return excall("ex_put_variable_names", [&] { return real(exoid, obj_type, num_vars, var_names); });
}

extern "C" int
ex_put_variable_param(int exoid, ex_entity_type obj_type, int num_vars)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, int num_vars);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_variable_param");
  if (!armed) return real(exoid, obj_type, num_vars);
  return excall("ex_put_variable_param", [&] { return real(exoid, obj_type, num_vars); });
}

extern "C" int
ex_update(int exoid)
{
  typedef int (*F)(int exoid);
  static F real = (F)dlsym(RTLD_NEXT, "ex_update");
  if (!armed) return real(exoid);
  return excall("ex_update", [&] { return real(exoid); });
}

extern "C" int
ex_put_name(int exoid, ex_entity_type obj_type, ex_entity_id entity_id, const char *name)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, ex_entity_id entity_id, const char *name);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_name");
  if (!armed) return real(exoid, obj_type, entity_id, name);
  return excall("ex_put_name", [&] { return real(exoid, obj_type, entity_id, name); });
}

extern "C" int
ex_put_init_ext(int exoid, const ex_init_params *param)
{
  typedef int (*F)(int exoid, const ex_init_params *param);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_init_ext");
  if (!armed) return real(exoid, param);
  return excall("ex_put_init_ext", [&] { return real(exoid, param); });
}

extern "C" int
ex_put_set(int exoid, ex_entity_type set_type, ex_entity_id set_id, const void_int *set_entry_list, const void_int *set_extra_list)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, const void_int *set_entry_list, const void_int *set_extra_list);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_set");
  if (!armed) return real(exoid, set_type, set_id, set_entry_list, set_extra_list);
  return excall("ex_put_set", [&] { return real(exoid, set_type, set_id, set_entry_list, set_extra_list); });
}

extern "C" int
ex_put_set_param(int exoid, ex_entity_type set_type, ex_entity_id set_id, int64_t num_entries_in_set, int64_t num_dist_fact_in_set)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, int64_t num_entries_in_set, int64_t num_dist_fact_in_set);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_set_param");
  if (!armed) return real(exoid, set_type, set_id, num_entries_in_set, num_dist_fact_in_set);
  return excall("ex_put_set_param", [&] { return real(exoid, set_type, set_id, num_entries_in_set, num_dist_fact_in_set); });
}

extern "C" int
ex_put_sets(int exoid, size_t set_count, const struct ex_set *sets)
{
  typedef int (*F)(int exoid, size_t set_count, const struct ex_set *sets);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_sets");
  if (!armed) return real(exoid, set_count, sets);
  return excall("ex_put_sets", [&] { return real(exoid, set_count, sets); });
}

extern "C" int
ex_put_truth_table(int exoid, ex_entity_type obj_type, int num_blk, int num_var, int *var_tab)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, int num_blk, int num_var, int *var_tab);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_truth_table");
  if (!armed) return real(exoid, obj_type, num_blk, num_var, var_tab);
  return excall("ex_put_truth_table", [&] { return real(exoid, obj_type, num_blk, num_var, var_tab); });
}

extern "C" int
ex_put_variable_name(int exoid, ex_entity_type obj_type, int var_num, const char *var_name)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, int var_num, const char *var_name);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_variable_name");
  if (!armed) return real(exoid, obj_type, var_num, var_name);
  return excall("ex_put_variable_name", [&] { return real(exoid, obj_type, var_num, var_name); });
}

extern "C" int
ex_put_all_var_param(int exoid, int num_g, int num_n, int num_e, int *elem_var_tab, int num_m, int *nset_var_tab, int num_s, int *sset_var_tab)
{
  typedef int (*F)(int exoid, int num_g, int num_n, int num_e, int *elem_var_tab, int num_m, int *nset_var_tab, int num_s, int *sset_var_tab);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_all_var_param");
  if (!armed) return real(exoid, num_g, num_n, num_e, elem_var_tab, num_m, nset_var_tab, num_s, sset_var_tab);
  return excall("ex_put_all_var_param", [&] { return real(exoid, num_g, num_n, num_e, elem_var_tab, num_m, nset_var_tab, num_s, sset_var_tab); });
}

extern "C" int
ex_get_init_ext(int exoid, ex_init_params *param)
{
  typedef int (*F)(int exoid, ex_init_params *param);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_init_ext");
  if (!armed) return real(exoid, param);
  return excall("ex_get_init_ext", [&] { return real(exoid, param); });
}

extern "C" int
ex_get_names(int exoid, ex_entity_type obj_type, char **names)
{
  typedef int (*F)(int exoid, ex_entity_type obj_type, char **names);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_names");
  if (!armed) return real(exoid, obj_type, names);
  return excall("ex_get_names", [&] { return real(exoid, obj_type, names); });
}

extern "C" int
ex_get_concat_sets(int exoid, ex_entity_type set_type, struct ex_set_specs *set_specs)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, struct ex_set_specs *set_specs);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_concat_sets");
  if (!armed) return real(exoid, set_type, set_specs);
  return excall("ex_get_concat_sets", [&] { return real(exoid, set_type, set_specs); });
}

extern "C" int
ex_get_sets(int exoid, size_t set_count, struct ex_set *sets)
{
  typedef int (*F)(int exoid, size_t set_count, struct ex_set *sets);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_sets");
  if (!armed) return real(exoid, set_count, sets);
  return excall("ex_get_sets", [&] { return real(exoid, set_count, sets); });
}

extern "C" int
ex_put_set_dist_fact(int exoid, ex_entity_type set_type, ex_entity_id set_id, const void *set_dist_fact)
{
  typedef int (*F)(int exoid, ex_entity_type set_type, ex_entity_id set_id, const void *set_dist_fact);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_set_dist_fact");
  if (!armed) return real(exoid, set_type, set_id, set_dist_fact);
  return excall("ex_put_set_dist_fact", [&] { return real(exoid, set_type, set_id, set_dist_fact); });
}

extern "C" int
ex_put_info(int exoid, int num_info, char *info[])
{
  typedef int (*F)(int exoid, int num_info, char *info[]);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_info");
  if (!armed) return real(exoid, num_info, info);
  return excall("ex_put_info", [&] { return real(exoid, num_info, info); });
}

extern "C" int
ex_put_num_map(int exoid, ex_entity_type map_type, ex_entity_id map_id, const void_int *map)
{
  typedef int (*F)(int exoid, ex_entity_type map_type, ex_entity_id map_id, const void_int *map);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_num_map");
  if (!armed) return real(exoid, map_type, map_id, map);
  return excall("ex_put_num_map", [&] { return real(exoid, map_type, map_id, map); });
}

extern "C" int
ex_put_map_param(int exoid, int num_node_maps, int num_elem_maps)
{
  typedef int (*F)(int exoid, int num_node_maps, int num_elem_maps);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_map_param");
  if (!armed) return real(exoid, num_node_maps, num_elem_maps);
  return excall("ex_put_map_param", [&] { return real(exoid, num_node_maps, num_elem_maps); });
}

extern "C" int
ex_put_concat_elem_block(int exoid, const void_int* elem_blk_id, char *elem_type[], const void_int* num_elem_this_blk, const void_int* num_nodes_per_elem, const void_int* num_attr, int define_maps)
{
  typedef int (*F)(int exoid, const void_int* elem_blk_id, char *elem_type[], const void_int* num_elem_this_blk, const void_int* num_nodes_per_elem, const void_int* num_attr, int define_maps);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_concat_elem_block");
  if (!armed) return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr, define_maps);
  return excall("ex_put_concat_elem_block", [&] { return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr, define_maps); });
}

extern "C" int
ex_get_block_param(int exoid, ex_block *block)
{
  typedef int (*F)(int exoid, ex_block *block);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_block_param");
  if (!armed) return real(exoid, block);
  return excall("ex_get_block_param", [&] { return real(exoid, block); });
}

extern "C" int
ex_put_elem_var(int exoid, int time_step, int elem_var_index, ex_entity_id elem_blk_id, int64_t num_elem_this_blk, const void *elem_var_vals)
{
  typedef int (*F)(int exoid, int time_step, int elem_var_index, ex_entity_id elem_blk_id, int64_t num_elem_this_blk, const void *elem_var_vals);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_elem_var");
  if (!armed) return real(exoid, time_step, elem_var_index, elem_blk_id, num_elem_this_blk, elem_var_vals);
  return excall("ex_put_elem_var", [&] { return real(exoid, time_step, elem_var_index, elem_blk_id, num_elem_this_blk, elem_var_vals); });
}

extern "C" int
ex_put_nodal_var(int exoid, int time_step, int nodal_var_index, int64_t num_nodes, const void *nodal_var_vals)
{
  typedef int (*F)(int exoid, int time_step, int nodal_var_index, int64_t num_nodes, const void *nodal_var_vals);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_nodal_var");
  if (!armed) return real(exoid, time_step, nodal_var_index, num_nodes, nodal_var_vals);
  return excall("ex_put_nodal_var", [&] { return real(exoid, time_step, nodal_var_index, num_nodes, nodal_var_vals); });
}

extern "C" int
ex_put_partial_var(int exoid, int time_step, ex_entity_type var_type, int var_index, ex_entity_id obj_id, int64_t start_index, int64_t num_entities, const void *var_vals)
{
  typedef int (*F)(int exoid, int time_step, ex_entity_type var_type, int var_index, ex_entity_id obj_id, int64_t start_index, int64_t num_entities, const void *var_vals);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_partial_var");
  if (!armed) return real(exoid, time_step, var_type, var_index, obj_id, start_index, num_entities, var_vals);
  return excall("ex_put_partial_var", [&] { return real(exoid, time_step, var_type, var_index, obj_id, start_index, num_entities, var_vals); });
}

extern "C" int
ex_put_partial_coord(int exoid, int64_t start_node_num, int64_t num_nodes, const void *x_coor, const void *y_coor, const void *z_coor)
{
  typedef int (*F)(int exoid, int64_t start_node_num, int64_t num_nodes, const void *x_coor, const void *y_coor, const void *z_coor);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_partial_coord");
  if (!armed) return real(exoid, start_node_num, num_nodes, x_coor, y_coor, z_coor);
  return excall("ex_put_partial_coord", [&] { return real(exoid, start_node_num, num_nodes, x_coor, y_coor, z_coor); });
}

extern "C" int
ex_get_partial_coord(int exoid, int64_t start_node_num, int64_t num_nodes, void *x_coor, void *y_coor, void *z_coor)
{
  typedef int (*F)(int exoid, int64_t start_node_num, int64_t num_nodes, void *x_coor, void *y_coor, void *z_coor);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_partial_coord");
  if (!armed) return real(exoid, start_node_num, num_nodes, x_coor, y_coor, z_coor);
  return excall("ex_get_partial_coord", [&] { return real(exoid, start_node_num, num_nodes, x_coor, y_coor, z_coor); });
}

extern "C" int
ex_put_node_set(int exoid, ex_entity_id node_set_id, const void_int *node_set_node_list)
{
  typedef int (*F)(int exoid, ex_entity_id node_set_id, const void_int *node_set_node_list);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_node_set");
  if (!armed) return real(exoid, node_set_id, node_set_node_list);
  return excall("ex_put_node_set", [&] { return real(exoid, node_set_id, node_set_node_list); });
}

extern "C" int
ex_get_elem_blk_ids(int exoid, void_int *ids)
{
  typedef int (*F)(int exoid, void_int *ids);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_elem_blk_ids");
  if (!armed) return real(exoid, ids);
  return excall("ex_get_elem_blk_ids", [&] { return real(exoid, ids); });
}

extern "C" int
ex_get_elem_block(int exoid, ex_entity_id elem_blk_id, char *elem_type, void_int *num_elem_this_blk, void_int *num_nodes_per_elem, void_int *num_attr)
{
  typedef int (*F)(int exoid, ex_entity_id elem_blk_id, char *elem_type, void_int *num_elem_this_blk, void_int *num_nodes_per_elem, void_int *num_attr);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_elem_block");
  if (!armed) return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr);
  return excall("ex_get_elem_block", [&] { return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr); });
}

extern "C" int
ex_get_elem_conn(int exoid, ex_entity_id elem_blk_id, void_int *connect)
{
  typedef int (*F)(int exoid, ex_entity_id elem_blk_id, void_int *connect);
  static F real = (F)dlsym(RTLD_NEXT, "ex_get_elem_conn");
  if (!armed) return real(exoid, elem_blk_id, connect);
  return excall("ex_get_elem_conn", [&] { return real(exoid, elem_blk_id, connect); });
}

extern "C" int
ex_put_elem_block(int exoid, ex_entity_id elem_blk_id, const char *elem_type, int64_t num_elem_this_blk, int64_t num_nodes_per_elem, int64_t num_attr)
{
  typedef int (*F)(int exoid, ex_entity_id elem_blk_id, const char *elem_type, int64_t num_elem_this_blk, int64_t num_nodes_per_elem, int64_t num_attr);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_elem_block");
  if (!armed) return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr);
  return excall("ex_put_elem_block", [&] { return real(exoid, elem_blk_id, elem_type, num_elem_this_blk, num_nodes_per_elem, num_attr); });
}

extern "C" int
ex_put_elem_conn(int exoid, ex_entity_id elem_blk_id, const void_int *connect)
{
  typedef int (*F)(int exoid, ex_entity_id elem_blk_id, const void_int *connect);
  static F real = (F)dlsym(RTLD_NEXT, "ex_put_elem_conn");
  if (!armed) return real(exoid, elem_blk_id, connect);
  return excall("ex_put_elem_conn", [&] { return real(exoid, elem_blk_id, connect); });
}
