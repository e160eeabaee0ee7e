// In-memory netCDF library: files are described by the harness, every access
// is checked against the extent of the variable and recorded. The library is
// not thread-safe, just like the real one: two threads inside it is an error.
#ifndef VERIF_NC_H
#define VERIF_NC_H
#include <netcdf.h>
#include <cmath>
#include "vcommon.h"
#include "vsched.h"

namespace nc {
enum Kind { UCHAR, INT, LONG, FLOAT, DOUBLE, BYTES };   // BYTES: user-defined type
struct Var {
	std::string name;
	std::vector<int> dims;        // dimension ids
	Kind kind;
	size_t size;                  // bytes of an element
	std::vector<unsigned char> data;
};
struct File {
	std::vector<std::pair<std::string, size_t> > dims;
	std::vector<Var> vars;
	unsigned long opens = 0, reads = 0, values = 0;   // reads/values of variables other than coordinates
	int openNow = 0;
};
static std::map<std::string, File> files;
static std::map<int, File*> handles;
static int nextHandle = 65536;
static unsigned long opens, closes;
static int inside[8];
static int failOpen = 0;              // > 0: that open fails
static std::map<std::string, int> failOpenOf;
static const char* exclusive = "C12 C14 C26";

struct Enter {
	Enter(const char* f) {
		if (inside[vs::curProc] && vf::about(exclusive)) vf::fail("%s is called while another thread is inside of the netCDF library", f);
		inside[vs::curProc]++;
		vs::yield();
	}
	~Enter() { inside[vs::curProc]--; }
};
inline size_t kindSize(Kind k) { return k == UCHAR ? 1 : k == INT || k == FLOAT ? 4 : 8; }
template<class T> T elem(const Var& v, size_t i) {
	const unsigned char* p = &v.data[i * v.size];
	switch (v.kind) {
	case UCHAR: return (T)*p;
	case INT: { int x; memcpy(&x, p, 4); return (T)x; }
	case LONG: { long x; memcpy(&x, p, 8); return (T)x; }
	case FLOAT: { float x; memcpy(&x, p, 4); return (T)x; }
	case DOUBLE: { double x; memcpy(&x, p, 8); return (T)x; }
	default: vf::fail("numeric access to a variable of user-defined type");
	}
}
inline Var& var(int id, int v) {
	VF_CHECK(handles.count(id), "netCDF handle %d is not open", id);
	File* f = handles[id];
	VF_CHECK(v >= 0 && v < (int)f->vars.size(), "variable %d does not exist", v);
	return f->vars[v];
}
/** Calls fn(linear index in the file, index in each dimension) in row-major order. */
inline void walk(int id, int varid, const size_t* start, const size_t* count, const ptrdiff_t* stride, std::function<void(size_t, const std::vector<size_t>&)> fn) {
	Var& v = var(id, varid); File& f = *handles[id];
	size_t n = v.dims.size();
	std::vector<size_t> ix(n, 0);
	size_t total = 1;
	for (size_t i = 0; i < n; i++) {
		size_t len = f.dims[v.dims[i]].second;
		if (stride) VF_CHECK(stride[i] == 1, "stride %td in dimension %zu", stride[i], i);
		VF_CHECK(start[i] < len && count[i] <= len - start[i], "read beyond the extent of variable %s: dimension %zu, start %zu, count %zu, length %zu", v.name.c_str(), i, start[i], count[i], len);
		total *= count[i];
	}
	f.reads++; f.values += total;
	for (size_t k = 0; k < total; k++) {
		size_t lin = 0;
		for (size_t i = 0; i < n; i++) lin = lin * f.dims[v.dims[i]].second + start[i] + ix[i];
		fn(lin, ix);
		for (size_t i = n; i-- > 0;) { if (++ix[i] < count[i]) break; ix[i] = 0; }
	}
}
template<class T> int varm(const char* fn, int id, int varid, const size_t* start, const size_t* count, const ptrdiff_t* stride, const ptrdiff_t* imap, T* buf) {
	Enter e(fn);
	Var& v = var(id, varid); File& f = *handles[id];
	size_t n = v.dims.size();
	std::vector<ptrdiff_t> m(n);
	for (size_t i = n; i-- > 0;) m[i] = imap ? imap[i] : i + 1 == n ? 1 : m[i + 1] * (ptrdiff_t)count[i + 1];
	walk(id, varid, start, count, stride, [&](size_t lin, const std::vector<size_t>& ix) {
		ptrdiff_t p = 0;
		for (size_t i = 0; i < n; i++) p += m[i] * (ptrdiff_t)ix[i];
		buf[p] = elem<T>(v, lin);
	});
	vs::yield();
	return NC_NOERR;
}
inline void reset() { files.clear(); handles.clear(); opens = closes = 0; memset(inside, 0, sizeof inside); failOpen = 0; failOpenOf.clear(); }
}

extern "C" {
int nc_open(const char* path, int mode, int* id) {
	nc::Enter e("nc_open");
	VF_CHECK(mode == NC_NOWRITE, "file opened with mode %d", mode);
	if (nc::failOpen > 0 && --nc::failOpen == 0) return NC_EPERM;
	if (!nc::files.count(path)) return 2;
	nc::File& f = nc::files[path];
	f.opens++; f.openNow++; nc::opens++;
	*id = nc::nextHandle++;
	nc::handles[*id] = &f;
	return NC_NOERR;
}
int nc_close(int id) {
	nc::Enter e("nc_close");
	VF_CHECK(nc::handles.count(id), "nc_close of a handle that is not open");
	nc::handles[id]->openNow--; nc::handles.erase(id); nc::closes++;
	return NC_NOERR;
}
int nc_inq_varid(int id, const char* name, int* v) {
	nc::Enter e("nc_inq_varid");
	VF_CHECK(nc::handles.count(id), "netCDF handle is not open");
	nc::File* f = nc::handles[id];
	for (size_t i = 0; i < f->vars.size(); i++) if (f->vars[i].name == name) { *v = i; return NC_NOERR; }
	return NC_ENOTVAR;
}
int nc_inq_varndims(int id, int v, int* n) { nc::Enter e("nc_inq_varndims"); *n = nc::var(id, v).dims.size(); return NC_NOERR; }
int nc_inq_vardimid(int id, int v, int* d) { nc::Enter e("nc_inq_vardimid"); nc::Var& x = nc::var(id, v); for (size_t i = 0; i < x.dims.size(); i++) d[i] = x.dims[i]; return NC_NOERR; }
int nc_inq_dim(int id, int d, char* name, size_t* len) {
	nc::Enter e("nc_inq_dim");
	VF_CHECK(nc::handles.count(id), "netCDF handle is not open");
	nc::File* f = nc::handles[id];
	VF_CHECK(d >= 0 && d < (int)f->dims.size(), "dimension %d does not exist", d);
	if (name) strcpy(name, f->dims[d].first.c_str());
	if (len) *len = f->dims[d].second;
	return NC_NOERR;
}
int nc_inq_dimlen(int id, int d, size_t* len) { return nc_inq_dim(id, d, 0, len); }
int nc_inq_dimname(int id, int d, char* name) { return nc_inq_dim(id, d, name, 0); }
int nc_inq_vartype(int id, int v, nc_type* t) { nc::Enter e("nc_inq_vartype"); *t = 100 + v; nc::var(id, v); return NC_NOERR; }
int nc_inq_type(int id, nc_type t, char* name, size_t* size) { nc::Enter e("nc_inq_type"); nc::Var& v = nc::var(id, t - 100); if (name) strcpy(name, "t"); if (size) *size = v.size; return NC_NOERR; }
int nc_get_var1_double(int id, int v, const size_t* ix, double* r) {
	nc::Enter e("nc_get_var1_double");
	nc::Var& x = nc::var(id, v); nc::File* f = nc::handles[id];
	VF_CHECK(x.dims.size() == 1 && ix[0] < f->dims[x.dims[0]].second, "coordinate read beyond the variable");
	*r = nc::elem<double>(x, ix[0]);
	return NC_NOERR;
}
int nc_get_varm_uchar(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* t, const ptrdiff_t* m, unsigned char* b) { return nc::varm("nc_get_varm_uchar", id, v, s, c, t, m, b); }
int nc_get_varm_int(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* t, const ptrdiff_t* m, int* b) { return nc::varm("nc_get_varm_int", id, v, s, c, t, m, b); }
int nc_get_varm_long(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* t, const ptrdiff_t* m, long* b) { return nc::varm("nc_get_varm_long", id, v, s, c, t, m, b); }
int nc_get_varm_float(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* t, const ptrdiff_t* m, float* b) { return nc::varm("nc_get_varm_float", id, v, s, c, t, m, b); }
int nc_get_varm_double(int id, int v, const size_t* s, const size_t* c, const ptrdiff_t* t, const ptrdiff_t* m, double* b) { return nc::varm("nc_get_varm_double", id, v, s, c, t, m, b); }
int nc_get_vara_uchar(int id, int v, const size_t* s, const size_t* c, unsigned char* b) { return nc::varm("nc_get_vara_uchar", id, v, s, c, 0, 0, b); }
int nc_get_vara_int(int id, int v, const size_t* s, const size_t* c, int* b) { return nc::varm("nc_get_vara_int", id, v, s, c, 0, 0, b); }
int nc_get_vara_long(int id, int v, const size_t* s, const size_t* c, long* b) { return nc::varm("nc_get_vara_long", id, v, s, c, 0, 0, b); }
int nc_get_vara_float(int id, int v, const size_t* s, const size_t* c, float* b) { return nc::varm("nc_get_vara_float", id, v, s, c, 0, 0, b); }
int nc_get_vara_double(int id, int v, const size_t* s, const size_t* c, double* b) { return nc::varm("nc_get_vara_double", id, v, s, c, 0, 0, b); }
int nc_get_vara(int id, int v, const size_t* s, const size_t* c, void* b) {
	nc::Enter e("nc_get_vara");
	nc::Var& x = nc::var(id, v);
	size_t k = 0;
	nc::walk(id, v, s, c, 0, [&](size_t lin, const std::vector<size_t>&) { memcpy((char*)b + k * x.size, &x.data[lin * x.size], x.size); k++; });
	vs::yield();
	return NC_NOERR;
}
const char* nc_strerror(int) { return "error"; }
}
#endif
