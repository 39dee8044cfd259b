// Node addon: memory areas that end and begin at inaccessible pages, and control over fence.so.
#define NAPI_VERSION 8
#include <node_api.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <stdint.h>
#include <string.h>
static void noFree(napi_env, void*, void*) {}
static const size_t PG = 65536;
static uint8_t* region(size_t size) { // size: a multiple of the page size
	uint8_t* p = (uint8_t*)mmap(NULL, size + 2*PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED || mprotect(p + PG, size, PROT_READ|PROT_WRITE)) return NULL;
	return p + PG;
}
// area(size): an ArrayBuffer with inaccessible memory on both sides
static napi_value area(napi_env env, napi_callback_info info) {
	size_t argc = 1; napi_value a[1], r; napi_get_cb_info(env, info, &argc, a, NULL, NULL);
	int64_t n = 0; napi_get_value_int64(env, a[0], &n);
	size_t size = ((size_t)n + PG-1) / PG * PG; uint8_t* p = region(size);
	if(!p || napi_create_external_arraybuffer(env, p, size, noFree, NULL, &r) != napi_ok) { napi_throw_error(env, NULL, "no memory"); return NULL; }
	return r;
}
// protect(arraybuffer, readonly)
static napi_value protect(napi_env env, napi_callback_info info) {
	size_t argc = 2; napi_value a[2]; napi_get_cb_info(env, info, &argc, a, NULL, NULL);
	void* p; size_t n; bool ro = false; napi_get_arraybuffer_info(env, a[0], &p, &n); napi_get_value_bool(env, a[1], &ro);
	if(mprotect(p, n, ro ? PROT_READ : PROT_READ|PROT_WRITE)) napi_throw_error(env, NULL, "mprotect failed");
	return NULL;
}
// arm(name of the module whose allocations are fenced): how many allocations have been fenced so far, or -1 without fence.so
static napi_value arm(napi_env env, napi_callback_info info) {
	size_t argc = 1; napi_value a[1], r; napi_get_cb_info(env, info, &argc, a, NULL, NULL); char name[256] = ""; size_t l;
	if(argc) napi_get_value_string_utf8(env, a[0], name, sizeof name, &l);
	int64_t (*f)(const char*) = (int64_t(*)(const char*))dlsym(RTLD_DEFAULT, "yv_fence_arm");
	napi_create_int64(env, f ? f(name) : -1, &r); return r;
}
static napi_value live(napi_env env, napi_callback_info) { int64_t (*f)() = (int64_t(*)())dlsym(RTLD_DEFAULT, "yv_fence_live"); napi_value r; napi_create_int64(env, f ? f() : -1, &r); return r; }
// fail(skip, n): see fence.cc
static napi_value fail(napi_env env, napi_callback_info info) {
	size_t argc = 2; napi_value a[2], r; napi_get_cb_info(env, info, &argc, a, NULL, NULL); int64_t s = 0, n = 0; napi_get_value_int64(env, a[0], &s); napi_get_value_int64(env, a[1], &n);
	int64_t (*f)(int64_t, int64_t) = (int64_t(*)(int64_t, int64_t))dlsym(RTLD_DEFAULT, "yv_fence_fail"); napi_create_int64(env, f ? f(s, n) : -1, &r); return r;
}
static napi_value init(napi_env env, napi_value exports) {
	napi_property_descriptor d[] = {{"area", 0, area, 0, 0, 0, napi_default, 0}, {"protect", 0, protect, 0, 0, 0, napi_default, 0}, {"arm", 0, arm, 0, 0, 0, napi_default, 0}, {"live", 0, live, 0, 0, 0, napi_default, 0}, {"fail", 0, fail, 0, 0, 0, napi_default, 0}};
	napi_define_properties(env, exports, 5, d); return exports;
}
NAPI_MODULE(guardbuf, init)
