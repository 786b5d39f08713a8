#include "host.h"
#include <stdlib.h>
#include <string.h>

/* ---- allocation seam ---- */
typedef struct Blk { struct Blk* next; size_t n; int live; unsigned char* p; } Blk;
static Blk* blks;
static int64_t failNth;
static int32_t nErr, nFailed;
#define GUARD 32

static Blk* find(void* p) {
    for (Blk* b = blks; b; b = b->next) if (b->p + GUARD == (unsigned char*)p) return b;
    return NULL;
}
void* vs_malloc(size_t n) {
    if (failNth > 0 && --failNth == 0) { nFailed++; return NULL; }
    Blk* b = (Blk*)malloc(sizeof(Blk));
    b->p = (unsigned char*)malloc(n + 2 * GUARD);
    memset(b->p, 0xA5, n + 2 * GUARD);
    b->n = n; b->live = 1; b->next = blks; blks = b;
    return b->p + GUARD;
}
static void chk(Blk* b) {
    int bad = 0;
    for (size_t i = 0; i < GUARD; i++) if (b->p[i] != 0xA5 || b->p[GUARD + b->n + i] != 0xA5) bad = 1;
    if (!b->live) for (size_t i = 0; i < b->n; i++) if (b->p[GUARD + i] != 0xDD) bad = 1;
    if (bad) { nErr++; memset(b->p, 0xA5, b->n + 2 * GUARD); if (!b->live) memset(b->p + GUARD, 0xDD, b->n); }
}
void vs_free(void* p) {
    if (!p) return;
    Blk* b = find(p);
    if (!b) { free(p); return; }
    if (!b->live) { nErr++; return; }
    chk(b);
    b->live = 0;
    memset(b->p + GUARD, 0xDD, b->n);
}
void* vs_calloc(size_t a, size_t b) { void* p = vs_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* vs_realloc(void* p, size_t n) {
    if (!p) return vs_malloc(n);
    Blk* b = find(p);
    if (!b) return realloc(p, n);
    void* q = vs_malloc(n);
    if (q) { memcpy(q, p, n < b->n ? n : b->n); vs_free(p); }
    return q;
}
char* vs_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vs_malloc(n); if (p) memcpy(p, s, n); return p; }
void vs_alloc_fail(int64_t nth) { failNth = nth; }
int32_t vs_alloc_failed(void) { return nFailed; }
int32_t vs_alloc_live(void) { int32_t n = 0; for (Blk* b = blks; b; b = b->next) n += b->live; return n; }
int32_t vs_is_live(void* p) { Blk* b = find(p); return b && b->live; }
void vs_alloc_check(void) { for (Blk* b = blks; b; b = b->next) chk(b); }
int32_t vs_alloc_errors(void) { return nErr; }
void vs_alloc_reset(void) {
    while (blks) { Blk* b = blks; blks = b->next; free(b->p); free(b); }
    failNth = 0; nErr = 0; nFailed = 0;
}

/* ---- host objects ---- */
typedef struct { void* vtbl; int64_t id; int32_t refs; } Obj;
#define ID(o) (((Obj*)(o))->id)

extern int32_t vsRead(int64_t id, void* buf, int32_t n, int32_t* got);
extern int32_t vsWrite(int64_t id, void* buf, int32_t n, int32_t* got);
extern int32_t vsSeek(int64_t id, int64_t pos, int32_t mode, int64_t* res);
extern int32_t vsTell(int64_t id, int64_t* pos);
extern int32_t vsPCount(int64_t id);
extern void* vsPData(int64_t id, int32_t i);
extern uint32_t vsQId(int64_t id);
extern int32_t vsQCount(int64_t id);
extern int32_t vsQPoint(int64_t id, int32_t i, int32_t* off, double* v);
extern int32_t vsECount(int64_t id);
extern int32_t vsEGet(int64_t id, int32_t i, struct Steinberg_Vst_Event* e);
extern int32_t vsHandler(int64_t id, int32_t what, uint32_t pid, double v);

static Steinberg_tresult o_qi(void* t, const Steinberg_TUID iid, void** obj) { (void)t; (void)iid; *obj = NULL; return -1; }
static Steinberg_uint32 o_add(void* t) { return ++((Obj*)t)->refs; }
static Steinberg_uint32 o_rel(void* t) { return --((Obj*)t)->refs; }
static Steinberg_tresult s_read(void* t, void* b, Steinberg_int32 n, Steinberg_int32* g) { return vsRead(ID(t), b, n, g); }
static Steinberg_tresult s_write(void* t, void* b, Steinberg_int32 n, Steinberg_int32* g) { return vsWrite(ID(t), b, n, g); }
static Steinberg_tresult s_seek(void* t, Steinberg_int64 p, Steinberg_int32 m, Steinberg_int64* r) { return vsSeek(ID(t), p, m, (int64_t*)r); }
static Steinberg_tresult s_tell(void* t, Steinberg_int64* p) { return vsTell(ID(t), (int64_t*)p); }
static Steinberg_int32 p_count(void* t) { return vsPCount(ID(t)); }
static struct Steinberg_Vst_IParamValueQueue* p_data(void* t, Steinberg_int32 i) { return (struct Steinberg_Vst_IParamValueQueue*)vsPData(ID(t), i); }
static struct Steinberg_Vst_IParamValueQueue* p_add(void* t, const Steinberg_Vst_ParamID* id, Steinberg_int32* i) { (void)t; (void)id; (void)i; return NULL; }
static Steinberg_Vst_ParamID q_id(void* t) { return vsQId(ID(t)); }
static Steinberg_int32 q_count(void* t) { return vsQCount(ID(t)); }
static Steinberg_tresult q_point(void* t, Steinberg_int32 i, Steinberg_int32* o, Steinberg_Vst_ParamValue* v) { return vsQPoint(ID(t), i, o, v); }
static Steinberg_tresult q_add(void* t, Steinberg_int32 o, Steinberg_Vst_ParamValue v, Steinberg_int32* i) { (void)t; (void)o; (void)v; (void)i; return 3; }
static Steinberg_int32 ev_count(void* t) { return vsECount(ID(t)); }
static Steinberg_tresult ev_get(void* t, Steinberg_int32 i, struct Steinberg_Vst_Event* e) { return vsEGet(ID(t), i, e); }
static Steinberg_tresult ev_add(void* t, struct Steinberg_Vst_Event* e) { (void)t; (void)e; return 3; }
static Steinberg_tresult h_begin(void* t, Steinberg_Vst_ParamID id) { return vsHandler(ID(t), 0, id, 0); }
static Steinberg_tresult h_perf(void* t, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue v) { return vsHandler(ID(t), 1, id, v); }
static Steinberg_tresult h_end(void* t, Steinberg_Vst_ParamID id) { return vsHandler(ID(t), 2, id, 0); }
static Steinberg_tresult h_restart(void* t, Steinberg_int32 f) { return vsHandler(ID(t), 3, (uint32_t)f, 0); }

static Steinberg_IBStreamVtbl streamV = { o_qi, o_add, o_rel, s_read, s_write, s_seek, s_tell };
static Steinberg_Vst_IParameterChangesVtbl changesV = { o_qi, o_add, o_rel, p_count, p_data, p_add };
static Steinberg_Vst_IParamValueQueueVtbl queueV = { o_qi, o_add, o_rel, q_id, q_count, q_point, q_add };
static Steinberg_Vst_IEventListVtbl eventsV = { o_qi, o_add, o_rel, ev_count, ev_get, ev_add };
static Steinberg_Vst_IComponentHandlerVtbl handlerV = { o_qi, o_add, o_rel, h_begin, h_perf, h_end, h_restart };

void* vs_obj(int32_t kind, int64_t id) {
    Obj* o = (Obj*)malloc(sizeof(Obj));
    void* v[] = { &streamV, &changesV, &queueV, &eventsV, &handlerV };
    o->vtbl = v[kind]; o->id = id; o->refs = 1;
    return o;
}
void vs_obj_free(void* o) { free(o); }
int32_t vs_obj_refs(void* o) { return ((Obj*)o)->refs; }

/* ---- calls into the plugin ---- */
extern struct Steinberg_IPluginFactory* GetPluginFactory();
extern int ModuleEntry(void*);
extern int ModuleExit();
void* vs_factory(void) { return GetPluginFactory(); }
int32_t vs_entry(void) { return ModuleEntry(NULL); }
int32_t vs_exit(void) { return ModuleExit(); }

#define U(o) ((struct Steinberg_FUnknown*)(o))
#define F(o) ((struct Steinberg_IPluginFactory*)(o))
#define C(o) ((struct Steinberg_Vst_IComponent*)(o))
#define A(o) ((struct Steinberg_Vst_IAudioProcessor*)(o))
#define E(o) ((struct Steinberg_Vst_IEditController*)(o))
int32_t vs_qi(void* o, const void* iid, void** out) { return U(o)->lpVtbl->queryInterface(o, (const char*)iid, out); }
uint32_t vs_addref(void* o) { return U(o)->lpVtbl->addRef(o); }
uint32_t vs_release(void* o) { return U(o)->lpVtbl->release(o); }
int32_t f_info(void* o, void* i) { return F(o)->lpVtbl->getFactoryInfo(o, (struct Steinberg_PFactoryInfo*)i); }
int32_t f_count(void* o) { return F(o)->lpVtbl->countClasses(o); }
int32_t f_class(void* o, int32_t i, void* info) { return F(o)->lpVtbl->getClassInfo(o, i, (struct Steinberg_PClassInfo*)info); }
int32_t f_create(void* o, const void* cid, const void* iid, void** out) { return F(o)->lpVtbl->createInstance(o, (const char*)cid, (const char*)iid, out); }
int32_t c_init(void* o, void* ctx) { return C(o)->lpVtbl->initialize(o, (struct Steinberg_FUnknown*)ctx); }
int32_t c_term(void* o) { return C(o)->lpVtbl->terminate(o); }
int32_t c_ctrlid(void* o, void* id) { return C(o)->lpVtbl->getControllerClassId(o, (char*)id); }
int32_t c_iomode(void* o, int32_t m) { return C(o)->lpVtbl->setIoMode(o, m); }
int32_t c_buscount(void* o, int32_t t, int32_t d) { return C(o)->lpVtbl->getBusCount(o, t, d); }
int32_t c_businfo(void* o, int32_t t, int32_t d, int32_t i, void* info) { return C(o)->lpVtbl->getBusInfo(o, t, d, i, (struct Steinberg_Vst_BusInfo*)info); }
int32_t c_routing(void* o) { struct Steinberg_Vst_RoutingInfo a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); return C(o)->lpVtbl->getRoutingInfo(o, &a, &b); }
int32_t c_activate(void* o, int32_t t, int32_t d, int32_t i, int32_t s) { return C(o)->lpVtbl->activateBus(o, t, d, i, (Steinberg_TBool)s); }
int32_t c_active(void* o, int32_t s) { return C(o)->lpVtbl->setActive(o, (Steinberg_TBool)s); }
int32_t c_setstate(void* o, void* s) { return C(o)->lpVtbl->setState(o, (struct Steinberg_IBStream*)s); }
int32_t c_getstate(void* o, void* s) { return C(o)->lpVtbl->getState(o, (struct Steinberg_IBStream*)s); }
int32_t a_setarr(void* o, void* in, int32_t ni, void* out, int32_t no) { return A(o)->lpVtbl->setBusArrangements(o, (Steinberg_Vst_SpeakerArrangement*)in, ni, (Steinberg_Vst_SpeakerArrangement*)out, no); }
int32_t a_getarr(void* o, int32_t d, int32_t i, void* arr) { return A(o)->lpVtbl->getBusArrangement(o, d, i, (Steinberg_Vst_SpeakerArrangement*)arr); }
int32_t a_cansize(void* o, int32_t s) { return A(o)->lpVtbl->canProcessSampleSize(o, s); }
uint32_t a_latency(void* o) { return A(o)->lpVtbl->getLatencySamples(o); }
int32_t a_setup(void* o, int32_t mode, int32_t size, int32_t maxb, double sr) {
    struct Steinberg_Vst_ProcessSetup s; memset(&s, 0, sizeof s);
    s.processMode = mode; s.symbolicSampleSize = size; s.maxSamplesPerBlock = maxb; s.sampleRate = sr;
    return A(o)->lpVtbl->setupProcessing(o, &s);
}
int32_t a_setproc(void* o, int32_t s) { return A(o)->lpVtbl->setProcessing(o, (Steinberg_TBool)s); }
int32_t a_process(void* o, void* d) { return A(o)->lpVtbl->process(o, (struct Steinberg_Vst_ProcessData*)d); }
uint32_t a_tail(void* o) { return A(o)->lpVtbl->getTailSamples(o); }
int32_t e_init(void* o) { return E(o)->lpVtbl->initialize(o, NULL); }
int32_t e_term(void* o) { return E(o)->lpVtbl->terminate(o); }
int32_t e_setcompstate(void* o, void* s) { return E(o)->lpVtbl->setComponentState(o, (struct Steinberg_IBStream*)s); }
int32_t e_setstate(void* o, void* s) { return E(o)->lpVtbl->setState(o, (struct Steinberg_IBStream*)s); }
int32_t e_getstate(void* o, void* s) { return E(o)->lpVtbl->getState(o, (struct Steinberg_IBStream*)s); }
int32_t e_count(void* o) { return E(o)->lpVtbl->getParameterCount(o); }
int32_t e_info(void* o, int32_t i, void* info) { return E(o)->lpVtbl->getParameterInfo(o, i, (struct Steinberg_Vst_ParameterInfo*)info); }
int32_t e_str(void* o, uint32_t id, double v, void* s) { return E(o)->lpVtbl->getParamStringByValue(o, id, v, (Steinberg_Vst_TChar*)s); }
int32_t e_val(void* o, uint32_t id, void* s, double* v) { return E(o)->lpVtbl->getParamValueByString(o, id, (Steinberg_Vst_TChar*)s, v); }
double e_toplain(void* o, uint32_t id, double v) { return E(o)->lpVtbl->normalizedParamToPlain(o, id, v); }
double e_tonorm(void* o, uint32_t id, double v) { return E(o)->lpVtbl->plainParamToNormalized(o, id, v); }
double e_get(void* o, uint32_t id) { return E(o)->lpVtbl->getParamNormalized(o, id); }
int32_t e_set(void* o, uint32_t id, double v) { return E(o)->lpVtbl->setParamNormalized(o, id, v); }
int32_t e_handler(void* o, void* h) { return E(o)->lpVtbl->setComponentHandler(o, (struct Steinberg_Vst_IComponentHandler*)h); }
void* e_view(void* o, const char* name) { return E(o)->lpVtbl->createView(o, name); }
const void* vs_iid(int32_t k) {
    static const Steinberg_TUID junk = VST3_UID(0x12345678, 0x9ABCDEF0, 0x0FEDCBA9, 0x87654321);
    switch (k) {
    case 0: return Steinberg_FUnknown_iid;
    case 1: return Steinberg_IPluginBase_iid;
    case 2: return Steinberg_Vst_IComponent_iid;
    case 3: return Steinberg_Vst_IAudioProcessor_iid;
    case 4: return Steinberg_Vst_IEditController_iid;
    case 5: return Steinberg_IPluginFactory_iid;
    case 6: return Steinberg_IBStream_iid;
    default: return junk;
    }
}

struct Steinberg_Vst_AudioBusBuffers* vs_buses(int32_t n) { return (struct Steinberg_Vst_AudioBusBuffers*)calloc(n ? n : 1, sizeof(struct Steinberg_Vst_AudioBusBuffers)); }
void vs_bus(struct Steinberg_Vst_AudioBusBuffers* b, int32_t i, int32_t channels, float** bufs) {
    b[i].numChannels = channels;
    b[i].Steinberg_Vst_AudioBusBuffers_channelBuffers32 = bufs;
}
void vs_note(struct Steinberg_Vst_Event* e, int32_t type, int32_t bus, int32_t off, int32_t chan, int32_t pitch, float vel) {
    memset(e, 0, sizeof *e);
    e->busIndex = bus; e->sampleOffset = off; e->type = (Steinberg_uint16)type;
    switch (type) {
    case Steinberg_Vst_Event_EventTypes_kNoteOnEvent:
        e->Steinberg_Vst_Event_noteOn.channel = (Steinberg_int16)chan; e->Steinberg_Vst_Event_noteOn.pitch = (Steinberg_int16)pitch;
        e->Steinberg_Vst_Event_noteOn.velocity = vel; e->Steinberg_Vst_Event_noteOn.noteId = -1; break;
    case Steinberg_Vst_Event_EventTypes_kNoteOffEvent:
        e->Steinberg_Vst_Event_noteOff.channel = (Steinberg_int16)chan; e->Steinberg_Vst_Event_noteOff.pitch = (Steinberg_int16)pitch;
        e->Steinberg_Vst_Event_noteOff.velocity = vel; e->Steinberg_Vst_Event_noteOff.noteId = -1; break;
    default:
        e->Steinberg_Vst_Event_polyPressure.channel = (Steinberg_int16)chan; e->Steinberg_Vst_Event_polyPressure.pitch = (Steinberg_int16)pitch;
        e->Steinberg_Vst_Event_polyPressure.pressure = vel; break;
    }
}
