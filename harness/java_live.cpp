// Linked into the JNI library of the check: C++ allocations of the library are counted like its malloc calls.
#include <cstdlib>
#include <new>
#include <jni.h>
extern "C" long vh_live(void);
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" JNIEXPORT jlong JNICALL Java_Driver_live(JNIEnv *, jclass) { return vh_live(); }

// What the binding obtains from the JVM is counted: element buffers and global references.
// The function table of a thread's environment is replaced by one that counts.
#include <atomic>
static std::atomic<long> obtained{0};
static const JNINativeInterface_ *orig;
static JNINativeInterface_ table;
#define ELEMENTS(T, J) \
    static J *JNICALL get##T(JNIEnv *e, J##Array a, jboolean *c) { J *p = orig->Get##T##ArrayElements(e, a, c); if (p) obtained++; return p; } \
    static void JNICALL rel##T(JNIEnv *e, J##Array a, J *p, jint m) { if (m != JNI_COMMIT) obtained--; orig->Release##T##ArrayElements(e, a, p, m); }
ELEMENTS(Boolean, jboolean) ELEMENTS(Byte, jbyte) ELEMENTS(Char, jchar) ELEMENTS(Short, jshort) ELEMENTS(Int, jint) ELEMENTS(Long, jlong) ELEMENTS(Float, jfloat) ELEMENTS(Double, jdouble)
static void *JNICALL getCritical(JNIEnv *e, jarray a, jboolean *c) { void *p = orig->GetPrimitiveArrayCritical(e, a, c); if (p) obtained++; return p; }
static void JNICALL relCritical(JNIEnv *e, jarray a, void *p, jint m) { if (m != JNI_COMMIT) obtained--; orig->ReleasePrimitiveArrayCritical(e, a, p, m); }
// local references at one time, of which 16 are guaranteed, since the thread last called hook
static thread_local long locals = 0, room = 0;
static std::atomic<long> most{0};
// the JDK's own native code uses the same table: only calls from this library count
extern "C" char __ehdr_start __attribute__((visibility("hidden"))), _end __attribute__((visibility("hidden")));
#define MINE ((char *)__builtin_return_address(0) >= &__ehdr_start && (char *)__builtin_return_address(0) < &_end)
template <class T> static inline T local(T p, bool mine) { if (p && mine && ++locals - room > most) most = locals - room; return p; }
static jobject JNICALL element(JNIEnv *e, jobjectArray a, jsize i) { return local(orig->GetObjectArrayElement(e, a, i), MINE); }
static jobject JNICALL newLocal(JNIEnv *e, jobject o) { return local(orig->NewLocalRef(e, o), MINE); }
static jclass JNICALL objectClass(JNIEnv *e, jobject o) { return local(orig->GetObjectClass(e, o), MINE); }
static jclass JNICALL findClass(JNIEnv *e, const char *n) { return local(orig->FindClass(e, n), MINE); }
static jobject JNICALL objectField(JNIEnv *e, jobject o, jfieldID f) { return local(orig->GetObjectField(e, o, f), MINE); }
static jintArray JNICALL newInts(JNIEnv *e, jsize n) { return local(orig->NewIntArray(e, n), MINE); }
static void JNICALL deleteLocal(JNIEnv *e, jobject o) { if (o && MINE) locals--; orig->DeleteLocalRef(e, o); }
static jint JNICALL ensure(JNIEnv *e, jint n) { if (MINE && n > room) room = n; return orig->EnsureLocalCapacity(e, n); }
static thread_local long frames[16], depth = 0;
static jint JNICALL push(JNIEnv *e, jint n) { if (MINE) { if (depth < 16) frames[depth++] = locals; if (locals + n > room) room = locals + n; } return orig->PushLocalFrame(e, n); }
static jobject JNICALL pop(JNIEnv *e, jobject o) { if (MINE && depth > 0) locals = frames[--depth]; return local(orig->PopLocalFrame(e, o), MINE); }
extern "C" JNIEXPORT void JNICALL Java_Driver_hook(JNIEnv *e, jclass) {
    locals = room = depth = 0;
    if (e->functions == &table) return;
    if (!orig) {
        orig = e->functions;
        table = *orig;
#define SET(T) table.Get##T##ArrayElements = get##T; table.Release##T##ArrayElements = rel##T;
        SET(Boolean) SET(Byte) SET(Char) SET(Short) SET(Int) SET(Long) SET(Float) SET(Double)
        table.GetPrimitiveArrayCritical = getCritical; table.ReleasePrimitiveArrayCritical = relCritical;
        table.GetObjectArrayElement = element; table.NewLocalRef = newLocal; table.GetObjectClass = objectClass; table.FindClass = findClass; table.GetObjectField = objectField;
        table.NewIntArray = newInts; table.DeleteLocalRef = deleteLocal; table.EnsureLocalCapacity = ensure; table.PushLocalFrame = push; table.PopLocalFrame = pop;
    }
    e->functions = &table;
}
extern "C" JNIEXPORT jlong JNICALL Java_Driver_obtained(JNIEnv *, jclass) { long n = obtained; obtained = 0; return n; }
extern "C" JNIEXPORT jlong JNICALL Java_Driver_most(JNIEnv *, jclass) { long n = most; most = 0; return n; }
