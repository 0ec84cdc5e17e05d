#pragma once
// Configuration used by the harnesses (mirrors src/ossia-config.hpp.in).
#define OSSIA_SHARED_MUTEX_AVAILABLE
#define OSSIA_DATAFLOW
#define OSSIA_EDITOR
#define OSSIA_PROTOCOL_OSC
#define OSSIA_PROTOCOL_MINUIT
#define OSSIA_PROTOCOL_OSCQUERY
#define OSSIA_PROTOCOL_MIDI
#define OSSIA_PROTOCOL_AUDIO
