/* Java's view of ref.c, and the bytes this thread holds allocated. */
#include <jni.h>
#include <stdlib.h>
#include <stddef.h>
#include <dlfcn.h>
long ref_result(void*, long, long, long, long, const long*, long, long*, long);
long ref_map(const long*, long, long, long, long*);
/* initial-exec: reading them in the allocation hooks must not allocate */
static __thread int on __attribute__((tls_model("initial-exec"))); static __thread long bytes __attribute__((tls_model("initial-exec")));
extern size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void hm(const volatile void* p, size_t n) { if (on && p) bytes += (long)n; }
static void hf(const volatile void* p) { if (on && p) bytes -= (long)__sanitizer_get_allocated_size(p); }
JNIEXPORT jlong JNICALL Java_Ref_held(JNIEnv* e, jclass c) {
    static int inst;
    if (!inst && __sanitizer_install_malloc_and_free_hooks) { inst = 1; __sanitizer_install_malloc_and_free_hooks(hm, hf); }
    on = 1;
    return bytes;
}
JNIEXPORT jlongArray JNICALL Java_Ref_labels(JNIEnv* e, jclass c, jdoubleArray data, jint rows, jint cols, jint m) {
    int was = on; on = 0;
    long cap = 4 + rows + (long)(rows + 1) * (rows + 2) * 2; long* out = malloc((size_t)cap * sizeof(long));
    jdouble* d = (*e)->GetDoubleArrayElements(e, data, NULL);
    long r = ref_result(d, rows, cols, 1, m, NULL, 0, out, cap);
    (*e)->ReleaseDoubleArrayElements(e, data, d, JNI_ABORT);
    jlongArray a = r < 0 ? NULL : (*e)->NewLongArray(e, rows);
    if (a) (*e)->SetLongArrayRegion(e, a, 0, rows, (jlong*)out + 1);
    free(out); on = was; return a;
}
JNIEXPORT jlongArray JNICALL Java_Ref_map(JNIEnv* e, jclass c, jlongArray labels) {
    int was = on; on = 0;
    jsize n = (*e)->GetArrayLength(e, labels); jlong* l = (*e)->GetLongArrayElements(e, labels, NULL);
    long* out = malloc((size_t)(3 * n + 4) * sizeof(long));
    long r = ref_map((long*)l, n, 0, n, out);
    (*e)->ReleaseLongArrayElements(e, labels, l, JNI_ABORT);
    jlongArray a = (*e)->NewLongArray(e, (jsize)r); (*e)->SetLongArrayRegion(e, a, 0, (jsize)r, (jlong*)out);
    free(out); on = was; return a;
}
