#include "qualities_check.h"

static void run(Source &s, Ctx &ctx) { check_qualities(s, ctx, HIERARCHICAL); }
const pbt::Property pbt::property = {"P06",
    "random hierarchical data of 11 families, scaled over 60 orders of magnitude, 0 to 3 vector dimensions, given as nested lists or cell by cell; gain and loss of "
    "every area are compared with the definition, evaluated independently in long double. Non-trivial: some area has a gain and a loss above rounding.", run};
