#include "qualities_check.h"

static void run(Source &s, Ctx &ctx) { check_qualities(s, ctx, ORDERED); }
const pbt::Property pbt::property = {"P05",
    "random ordered data of 11 families, scaled over 60 orders of magnitude, 0 to 3 vector dimensions, given as nested lists or cell by cell; gain and loss of "
    "every area are compared with the definition, evaluated independently in long double. Non-trivial: some area has a gain and a loss above rounding.", run};
