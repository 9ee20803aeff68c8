// Instantiates the string templates so that their bodies are analysed.
#include "xo/string/string_tools.h"
#include "xo/string/string_cast.h"
#include "xo/string/dictionary.h"
#include "xo/string/pattern_matcher.h"
#include "xo/container/container_tools.h"
