/* Stand-in for submodules/utils (TUM-I5/utils is an empty submodule in this
 * sandbox): same macros, messages are dropped, an error ends the caller. */
#ifndef VERIF_SHIM_LOGGER_H
#define VERIF_SHIM_LOGGER_H

#ifndef NDBG_UNUSED
#ifdef NDEBUG
#define NDBG_UNUSED(x) ((void)x)
#else
#define NDBG_UNUSED(x)
#endif
#endif

#include <string>

namespace utils
{

/** A fatal error was reported (the real one ends the process). */
[[noreturn]] void verifFatal();
/** A warning was reported. */
void verifWarn();

class Message
{
public:
	template<typename T>
	Message& operator<<(const T&) { return *this; }
};

class FatalMessage
{
public:
	~FatalMessage() noexcept(false) { verifFatal(); }
	template<typename T>
	FatalMessage& operator<<(const T&) { return *this; }
};

inline Message verifLog(int = -1) { return Message(); }
inline Message verifLogWarn(int = -1) { verifWarn(); return Message(); }

}

#define logDebug(...) utils::verifLog(__VA_ARGS__)
#define logInfo(...) utils::verifLog(__VA_ARGS__)
#define logWarning(...) utils::verifLogWarn(__VA_ARGS__)
#define logError() utils::FatalMessage()

#endif
