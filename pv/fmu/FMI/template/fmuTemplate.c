/* stand-in for the template of the FMU SDK: the calls of a simulator */
static const fmiValueReference vrStates[NUMBER_OF_STATES] = STATES;
#define STR2(x) #x
#define STR(x) STR2(x)
const char* pv_identifier(void) { return STR(MODEL_IDENTIFIER); }
const char* pv_guid(void) { return MODEL_GUID; }
int pv_reals(void) { return NUMBER_OF_REALS; }
int pv_states(void) { return NUMBER_OF_STATES; }
void pv_state_refs(unsigned *out) { for (int i = 0; i < NUMBER_OF_STATES; ++i) out[i] = vrStates[i]; }
/* the memory is as long as the model says, with a margin that must stay untouched */
void* pv_instantiate(double fill) {
    ModelInstance *comp = malloc(sizeof *comp);
    comp->r = malloc((NUMBER_OF_REALS + 8)*sizeof(double));
    for (int i = 0; i < NUMBER_OF_REALS + 8; ++i) comp->r[i] = fill;
    comp->time = 0.0;
    setStartValues(comp);
    newContinousStateSet = fmiTrue;
    return comp;
}
void pv_initialize(void* c) { fmiEventInfo e; memset(&e, 0, sizeof e); initialize(c, &e); eventUpdate(c, &e); }
int pv_margin(void* c, double fill) { for (int i = 0; i < 8; ++i) if (((ModelInstance*)c)->r[NUMBER_OF_REALS + i] != fill) return 0; return 1; }
void pv_time(void* c, double t) { ((ModelInstance*)c)->time = t; newContinousStateSet = fmiTrue; }
void pv_set(void* c, unsigned vr, double v) { ((ModelInstance*)c)->r[vr] = v; newContinousStateSet = fmiTrue; }
double pv_get(void* c, unsigned vr) { return getReal(c, vr); }
double pv_raw(void* c, unsigned vr) { return ((ModelInstance*)c)->r[vr]; }
void pv_free(void* c) { free(((ModelInstance*)c)->r); free(c); }
