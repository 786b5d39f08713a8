/* Stand-in for Steinberg's vst3_c_api.h (the submodule include/vst3 is empty
 * here and cannot be fetched). Names, layouts and values follow the original
 * (VST 3.7 C API) for everything vst3go and the simulated host use. */
#ifndef VST3_C_API_STANDIN
#define VST3_C_API_STANDIN

#include <stdint.h>

#define SMTG_STDMETHODCALLTYPE

typedef int8_t Steinberg_int8;
typedef uint8_t Steinberg_uint8;
typedef unsigned char Steinberg_uchar;
typedef int16_t Steinberg_int16;
typedef uint16_t Steinberg_uint16;
typedef int32_t Steinberg_int32;
typedef uint32_t Steinberg_uint32;
typedef int64_t Steinberg_int64;
typedef uint64_t Steinberg_uint64;
typedef uint8_t Steinberg_TBool;
typedef char Steinberg_char8;
typedef int16_t Steinberg_char16;
typedef Steinberg_int32 Steinberg_tresult;
typedef char Steinberg_TUID[16];
typedef const Steinberg_char8* Steinberg_FIDString;
typedef Steinberg_char16 Steinberg_Vst_TChar;
typedef Steinberg_Vst_TChar Steinberg_Vst_String128[128];
typedef const Steinberg_char8* Steinberg_Vst_CString;
typedef Steinberg_int32 Steinberg_Vst_MediaType;
typedef Steinberg_int32 Steinberg_Vst_BusDirection;
typedef Steinberg_int32 Steinberg_Vst_BusType;
typedef Steinberg_int32 Steinberg_Vst_IoMode;
typedef Steinberg_int32 Steinberg_Vst_UnitID;
typedef double Steinberg_Vst_ParamValue;
typedef Steinberg_uint32 Steinberg_Vst_ParamID;
typedef Steinberg_int64 Steinberg_Vst_TSamples;
typedef double Steinberg_Vst_TQuarterNotes;
typedef float Steinberg_Vst_Sample32;
typedef double Steinberg_Vst_Sample64;
typedef double Steinberg_Vst_SampleRate;
typedef Steinberg_uint64 Steinberg_Vst_SpeakerArrangement;
typedef Steinberg_uint64 Steinberg_Vst_Speaker;

enum { Steinberg_kNoInterface = -1, Steinberg_kResultOk = 0, Steinberg_kResultTrue = 0, Steinberg_kResultFalse = 1,
       Steinberg_kInvalidArgument = 2, Steinberg_kNotImplemented = 3, Steinberg_kInternalError = 4,
       Steinberg_kNotInitialized = 5, Steinberg_kOutOfMemory = 6 };

typedef enum { Steinberg_Vst_MediaTypes_kAudio = 0, Steinberg_Vst_MediaTypes_kEvent = 1, Steinberg_Vst_MediaTypes_kNumMediaTypes = 2 } Steinberg_Vst_MediaTypes;
typedef enum { Steinberg_Vst_BusDirections_kInput = 0, Steinberg_Vst_BusDirections_kOutput = 1 } Steinberg_Vst_BusDirections;
typedef enum { Steinberg_Vst_BusTypes_kMain = 0, Steinberg_Vst_BusTypes_kAux = 1 } Steinberg_Vst_BusTypes;
typedef enum { Steinberg_Vst_SymbolicSampleSizes_kSample32 = 0, Steinberg_Vst_SymbolicSampleSizes_kSample64 = 1 } Steinberg_Vst_SymbolicSampleSizes;

typedef enum {
    Steinberg_Vst_ParameterInfo_ParameterFlags_kNoFlags = 0,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kCanAutomate = 1 << 0,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsReadOnly = 1 << 1,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsWrapAround = 1 << 2,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsList = 1 << 3,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsHidden = 1 << 4,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsProgramChange = 1 << 15,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsBypass = 1 << 16
} Steinberg_Vst_ParameterInfo_ParameterFlags;

typedef enum {
    Steinberg_PFactoryInfo_FactoryFlags_kNoFlags = 0,
    Steinberg_PFactoryInfo_FactoryFlags_kClassesDiscardable = 1 << 0,
    Steinberg_PFactoryInfo_FactoryFlags_kLicenseCheck = 1 << 1,
    Steinberg_PFactoryInfo_FactoryFlags_kComponentNonDiscardable = 1 << 3,
    Steinberg_PFactoryInfo_FactoryFlags_kUnicode = 1 << 4
} Steinberg_PFactoryInfo_FactoryFlags;

typedef enum { Steinberg_PClassInfo_ClassCardinality_kManyInstances = 0x7FFFFFFF } Steinberg_PClassInfo_ClassCardinality;

typedef enum {
    Steinberg_Vst_ProcessContext_StatesAndFlags_kPlaying = 1 << 1,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleActive = 1 << 2,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kRecording = 1 << 3,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kSystemTimeValid = 1 << 8,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kProjectTimeMusicValid = 1 << 9,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kTempoValid = 1 << 10,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kBarPositionValid = 1 << 11,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleValid = 1 << 12,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kTimeSigValid = 1 << 13,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kSmpteValid = 1 << 14,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kClockValid = 1 << 15,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kContTimeValid = 1 << 17,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kChordValid = 1 << 18
} Steinberg_Vst_ProcessContext_StatesAndFlags;

typedef enum {
    Steinberg_Vst_Event_EventTypes_kNoteOnEvent = 0,
    Steinberg_Vst_Event_EventTypes_kNoteOffEvent = 1,
    Steinberg_Vst_Event_EventTypes_kDataEvent = 2,
    Steinberg_Vst_Event_EventTypes_kPolyPressureEvent = 3,
    Steinberg_Vst_Event_EventTypes_kNoteExpressionValueEvent = 4,
    Steinberg_Vst_Event_EventTypes_kNoteExpressionTextEvent = 5,
    Steinberg_Vst_Event_EventTypes_kChordEvent = 6,
    Steinberg_Vst_Event_EventTypes_kScaleEvent = 7,
    Steinberg_Vst_Event_EventTypes_kLegacyMIDICCOutEvent = 65535
} Steinberg_Vst_Event_EventTypes;

typedef enum {
    Steinberg_IBStream_IStreamSeekMode_kIBSeekSet = 0,
    Steinberg_IBStream_IStreamSeekMode_kIBSeekCur = 1,
    Steinberg_IBStream_IStreamSeekMode_kIBSeekEnd = 2
} Steinberg_IBStream_IStreamSeekMode;

/* ---- structs ---- */
struct Steinberg_Vst_BusInfo {
    Steinberg_Vst_MediaType mediaType;
    Steinberg_Vst_BusDirection direction;
    Steinberg_int32 channelCount;
    Steinberg_Vst_String128 name;
    Steinberg_Vst_BusType busType;
    Steinberg_uint32 flags;
};

struct Steinberg_Vst_RoutingInfo {
    Steinberg_Vst_MediaType mediaType;
    Steinberg_int32 busIndex;
    Steinberg_int32 channel;
};

struct Steinberg_Vst_ParameterInfo {
    Steinberg_Vst_ParamID id;
    Steinberg_Vst_String128 title;
    Steinberg_Vst_String128 shortTitle;
    Steinberg_Vst_String128 units;
    Steinberg_int32 stepCount;
    Steinberg_Vst_ParamValue defaultNormalizedValue;
    Steinberg_Vst_UnitID unitId;
    Steinberg_int32 flags;
};

struct Steinberg_PFactoryInfo {
    Steinberg_char8 vendor[64];
    Steinberg_char8 url[256];
    Steinberg_char8 email[128];
    Steinberg_int32 flags;
};

struct Steinberg_PClassInfo {
    Steinberg_TUID cid;
    Steinberg_int32 cardinality;
    Steinberg_char8 category[32];
    Steinberg_char8 name[64];
};

struct Steinberg_Vst_ProcessSetup {
    Steinberg_int32 processMode;
    Steinberg_int32 symbolicSampleSize;
    Steinberg_int32 maxSamplesPerBlock;
    Steinberg_Vst_SampleRate sampleRate;
};

struct Steinberg_Vst_AudioBusBuffers {
    Steinberg_int32 numChannels;
    Steinberg_uint64 silenceFlags;
    union {
        Steinberg_Vst_Sample32** Steinberg_Vst_AudioBusBuffers_channelBuffers32;
        Steinberg_Vst_Sample64** Steinberg_Vst_AudioBusBuffers_channelBuffers64;
    };
};

struct Steinberg_Vst_FrameRate {
    Steinberg_uint32 framesPerSecond;
    Steinberg_uint32 flags;
};

struct Steinberg_Vst_Chord {
    Steinberg_uint8 keyNote;
    Steinberg_uint8 rootNote;
    Steinberg_int16 chordMask;
};

struct Steinberg_Vst_ProcessContext {
    Steinberg_uint32 state;
    double sampleRate;
    Steinberg_Vst_TSamples projectTimeSamples;
    Steinberg_int64 systemTime;
    Steinberg_Vst_TSamples continousTimeSamples;
    Steinberg_Vst_TQuarterNotes projectTimeMusic;
    Steinberg_Vst_TQuarterNotes barPositionMusic;
    Steinberg_Vst_TQuarterNotes cycleStartMusic;
    Steinberg_Vst_TQuarterNotes cycleEndMusic;
    double tempo;
    Steinberg_int32 timeSigNumerator;
    Steinberg_int32 timeSigDenominator;
    struct Steinberg_Vst_Chord chord;
    Steinberg_int32 smpteOffsetSubframes;
    struct Steinberg_Vst_FrameRate frameRate;
    Steinberg_int32 samplesToNextClock;
};

struct Steinberg_Vst_NoteOnEvent {
    Steinberg_int16 channel;
    Steinberg_int16 pitch;
    float tuning;
    float velocity;
    Steinberg_int32 length;
    Steinberg_int32 noteId;
};

struct Steinberg_Vst_NoteOffEvent {
    Steinberg_int16 channel;
    Steinberg_int16 pitch;
    float velocity;
    Steinberg_int32 noteId;
    float tuning;
};

struct Steinberg_Vst_DataEvent {
    Steinberg_uint32 size;
    Steinberg_uint32 type;
    const Steinberg_uint8* bytes;
};

struct Steinberg_Vst_PolyPressureEvent {
    Steinberg_int16 channel;
    Steinberg_int16 pitch;
    float pressure;
    Steinberg_int32 noteId;
};

struct Steinberg_Vst_LegacyMIDICCOutEvent {
    Steinberg_uint8 controlNumber;
    Steinberg_int8 channel;
    Steinberg_int8 value;
    Steinberg_int8 value2;
};

struct Steinberg_Vst_Event {
    Steinberg_int32 busIndex;
    Steinberg_int32 sampleOffset;
    Steinberg_Vst_TQuarterNotes ppqPosition;
    Steinberg_uint16 flags;
    Steinberg_uint16 type;
    union {
        struct Steinberg_Vst_NoteOnEvent Steinberg_Vst_Event_noteOn;
        struct Steinberg_Vst_NoteOffEvent Steinberg_Vst_Event_noteOff;
        struct Steinberg_Vst_DataEvent Steinberg_Vst_Event_data;
        struct Steinberg_Vst_PolyPressureEvent Steinberg_Vst_Event_polyPressure;
        struct Steinberg_Vst_LegacyMIDICCOutEvent Steinberg_Vst_Event_midiCCOut;
    };
};

struct Steinberg_IPlugView;

/* ---- interfaces ---- */
#define VST3_FUNKNOWN \
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* queryInterface)(void* thisInterface, const Steinberg_TUID iid, void** obj); \
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE* addRef)(void* thisInterface); \
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE* release)(void* thisInterface);

typedef struct Steinberg_FUnknownVtbl { VST3_FUNKNOWN } Steinberg_FUnknownVtbl;
typedef struct Steinberg_FUnknown { struct Steinberg_FUnknownVtbl* lpVtbl; } Steinberg_FUnknown;

typedef struct Steinberg_IBStreamVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* read)(void* thisInterface, void* buffer, Steinberg_int32 numBytes, Steinberg_int32* numBytesRead);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* write)(void* thisInterface, void* buffer, Steinberg_int32 numBytes, Steinberg_int32* numBytesWritten);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* seek)(void* thisInterface, Steinberg_int64 pos, Steinberg_int32 mode, Steinberg_int64* result);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* tell)(void* thisInterface, Steinberg_int64* pos);
} Steinberg_IBStreamVtbl;
typedef struct Steinberg_IBStream { struct Steinberg_IBStreamVtbl* lpVtbl; } Steinberg_IBStream;

typedef struct Steinberg_IPluginFactoryVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getFactoryInfo)(void* thisInterface, struct Steinberg_PFactoryInfo* info);
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* countClasses)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getClassInfo)(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* createInstance)(void* thisInterface, Steinberg_FIDString cid, Steinberg_FIDString iid, void** obj);
} Steinberg_IPluginFactoryVtbl;
typedef struct Steinberg_IPluginFactory { struct Steinberg_IPluginFactoryVtbl* lpVtbl; } Steinberg_IPluginFactory;

typedef struct Steinberg_Vst_IComponentVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* initialize)(void* thisInterface, struct Steinberg_FUnknown* context);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* terminate)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getControllerClassId)(void* thisInterface, Steinberg_TUID classId);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setIoMode)(void* thisInterface, Steinberg_Vst_IoMode mode);
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* getBusCount)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getBusInfo)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, struct Steinberg_Vst_BusInfo* bus);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getRoutingInfo)(void* thisInterface, struct Steinberg_Vst_RoutingInfo* inInfo, struct Steinberg_Vst_RoutingInfo* outInfo);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* activateBus)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, Steinberg_TBool state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setActive)(void* thisInterface, Steinberg_TBool state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setState)(void* thisInterface, struct Steinberg_IBStream* state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getState)(void* thisInterface, struct Steinberg_IBStream* state);
} Steinberg_Vst_IComponentVtbl;
typedef struct Steinberg_Vst_IComponent { struct Steinberg_Vst_IComponentVtbl* lpVtbl; } Steinberg_Vst_IComponent;

struct Steinberg_Vst_IParameterChanges;
struct Steinberg_Vst_IParamValueQueue;
struct Steinberg_Vst_IEventList;

typedef struct Steinberg_Vst_IParamValueQueueVtbl {
    VST3_FUNKNOWN
    Steinberg_Vst_ParamID (SMTG_STDMETHODCALLTYPE* getParameterId)(void* thisInterface);
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* getPointCount)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getPoint)(void* thisInterface, Steinberg_int32 index, Steinberg_int32* sampleOffset, Steinberg_Vst_ParamValue* value);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* addPoint)(void* thisInterface, Steinberg_int32 sampleOffset, Steinberg_Vst_ParamValue value, Steinberg_int32* index);
} Steinberg_Vst_IParamValueQueueVtbl;
typedef struct Steinberg_Vst_IParamValueQueue { struct Steinberg_Vst_IParamValueQueueVtbl* lpVtbl; } Steinberg_Vst_IParamValueQueue;

typedef struct Steinberg_Vst_IParameterChangesVtbl {
    VST3_FUNKNOWN
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* getParameterCount)(void* thisInterface);
    struct Steinberg_Vst_IParamValueQueue* (SMTG_STDMETHODCALLTYPE* getParameterData)(void* thisInterface, Steinberg_int32 index);
    struct Steinberg_Vst_IParamValueQueue* (SMTG_STDMETHODCALLTYPE* addParameterData)(void* thisInterface, const Steinberg_Vst_ParamID* id, Steinberg_int32* index);
} Steinberg_Vst_IParameterChangesVtbl;
typedef struct Steinberg_Vst_IParameterChanges { struct Steinberg_Vst_IParameterChangesVtbl* lpVtbl; } Steinberg_Vst_IParameterChanges;

typedef struct Steinberg_Vst_IEventListVtbl {
    VST3_FUNKNOWN
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* getEventCount)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getEvent)(void* thisInterface, Steinberg_int32 index, struct Steinberg_Vst_Event* e);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* addEvent)(void* thisInterface, struct Steinberg_Vst_Event* e);
} Steinberg_Vst_IEventListVtbl;
typedef struct Steinberg_Vst_IEventList { struct Steinberg_Vst_IEventListVtbl* lpVtbl; } Steinberg_Vst_IEventList;

struct Steinberg_Vst_ProcessData {
    Steinberg_int32 processMode;
    Steinberg_int32 symbolicSampleSize;
    Steinberg_int32 numSamples;
    Steinberg_int32 numInputs;
    Steinberg_int32 numOutputs;
    struct Steinberg_Vst_AudioBusBuffers* inputs;
    struct Steinberg_Vst_AudioBusBuffers* outputs;
    struct Steinberg_Vst_IParameterChanges* inputParameterChanges;
    struct Steinberg_Vst_IParameterChanges* outputParameterChanges;
    struct Steinberg_Vst_IEventList* inputEvents;
    struct Steinberg_Vst_IEventList* outputEvents;
    struct Steinberg_Vst_ProcessContext* processContext;
};

typedef struct Steinberg_Vst_IAudioProcessorVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setBusArrangements)(void* thisInterface, Steinberg_Vst_SpeakerArrangement* inputs, Steinberg_int32 numIns, Steinberg_Vst_SpeakerArrangement* outputs, Steinberg_int32 numOuts);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getBusArrangement)(void* thisInterface, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, Steinberg_Vst_SpeakerArrangement* arr);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* canProcessSampleSize)(void* thisInterface, Steinberg_int32 symbolicSampleSize);
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE* getLatencySamples)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setupProcessing)(void* thisInterface, struct Steinberg_Vst_ProcessSetup* setup);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setProcessing)(void* thisInterface, Steinberg_TBool state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* process)(void* thisInterface, struct Steinberg_Vst_ProcessData* data);
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE* getTailSamples)(void* thisInterface);
} Steinberg_Vst_IAudioProcessorVtbl;
typedef struct Steinberg_Vst_IAudioProcessor { struct Steinberg_Vst_IAudioProcessorVtbl* lpVtbl; } Steinberg_Vst_IAudioProcessor;

typedef struct Steinberg_Vst_IComponentHandlerVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* beginEdit)(void* thisInterface, Steinberg_Vst_ParamID id);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* performEdit)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* endEdit)(void* thisInterface, Steinberg_Vst_ParamID id);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* restartComponent)(void* thisInterface, Steinberg_int32 flags);
} Steinberg_Vst_IComponentHandlerVtbl;
typedef struct Steinberg_Vst_IComponentHandler { struct Steinberg_Vst_IComponentHandlerVtbl* lpVtbl; } Steinberg_Vst_IComponentHandler;

typedef struct Steinberg_Vst_IEditControllerVtbl {
    VST3_FUNKNOWN
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* initialize)(void* thisInterface, struct Steinberg_FUnknown* context);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* terminate)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setComponentState)(void* thisInterface, struct Steinberg_IBStream* state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setState)(void* thisInterface, struct Steinberg_IBStream* state);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getState)(void* thisInterface, struct Steinberg_IBStream* state);
    Steinberg_int32 (SMTG_STDMETHODCALLTYPE* getParameterCount)(void* thisInterface);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getParameterInfo)(void* thisInterface, Steinberg_int32 paramIndex, struct Steinberg_Vst_ParameterInfo* info);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getParamStringByValue)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized, Steinberg_Vst_String128 string);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* getParamValueByString)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_TChar* string, Steinberg_Vst_ParamValue* valueNormalized);
    Steinberg_Vst_ParamValue (SMTG_STDMETHODCALLTYPE* normalizedParamToPlain)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized);
    Steinberg_Vst_ParamValue (SMTG_STDMETHODCALLTYPE* plainParamToNormalized)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue plainValue);
    Steinberg_Vst_ParamValue (SMTG_STDMETHODCALLTYPE* getParamNormalized)(void* thisInterface, Steinberg_Vst_ParamID id);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setParamNormalized)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue value);
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE* setComponentHandler)(void* thisInterface, struct Steinberg_Vst_IComponentHandler* handler);
    struct Steinberg_IPlugView* (SMTG_STDMETHODCALLTYPE* createView)(void* thisInterface, Steinberg_FIDString name);
} Steinberg_Vst_IEditControllerVtbl;
typedef struct Steinberg_Vst_IEditController { struct Steinberg_Vst_IEditControllerVtbl* lpVtbl; } Steinberg_Vst_IEditController;

/* ---- interface ids ---- */
#define VST3_UID(l1, l2, l3, l4) { \
    (Steinberg_int8)(((l1) & 0xFF000000) >> 24), (Steinberg_int8)(((l1) & 0x00FF0000) >> 16), (Steinberg_int8)(((l1) & 0x0000FF00) >> 8), (Steinberg_int8)((l1) & 0x000000FF), \
    (Steinberg_int8)(((l2) & 0xFF000000) >> 24), (Steinberg_int8)(((l2) & 0x00FF0000) >> 16), (Steinberg_int8)(((l2) & 0x0000FF00) >> 8), (Steinberg_int8)((l2) & 0x000000FF), \
    (Steinberg_int8)(((l3) & 0xFF000000) >> 24), (Steinberg_int8)(((l3) & 0x00FF0000) >> 16), (Steinberg_int8)(((l3) & 0x0000FF00) >> 8), (Steinberg_int8)((l3) & 0x000000FF), \
    (Steinberg_int8)(((l4) & 0xFF000000) >> 24), (Steinberg_int8)(((l4) & 0x00FF0000) >> 16), (Steinberg_int8)(((l4) & 0x0000FF00) >> 8), (Steinberg_int8)((l4) & 0x000000FF) }

static const Steinberg_TUID Steinberg_FUnknown_iid = VST3_UID(0x00000000, 0x00000000, 0xC0000000, 0x00000046);
static const Steinberg_TUID Steinberg_IPluginBase_iid = VST3_UID(0x22888DDB, 0x156E45AE, 0x8358B348, 0x08190625);
static const Steinberg_TUID Steinberg_IPluginFactory_iid = VST3_UID(0x7A4D811C, 0x52114A1F, 0xAED9D2EE, 0x0B43BF9F);
static const Steinberg_TUID Steinberg_IBStream_iid = VST3_UID(0xC3BF6EA2, 0x30994752, 0x9B6BF990, 0x1EE33E9B);
static const Steinberg_TUID Steinberg_Vst_IComponent_iid = VST3_UID(0xE831FF31, 0xF2D54301, 0x928EBBEE, 0x25697802);
static const Steinberg_TUID Steinberg_Vst_IAudioProcessor_iid = VST3_UID(0x42043F99, 0xB7DA453C, 0xA569E79D, 0x9AAEC33D);
static const Steinberg_TUID Steinberg_Vst_IEditController_iid = VST3_UID(0xDCD7BBE3, 0x7742448D, 0xA874AACC, 0x979C759E);

#endif
