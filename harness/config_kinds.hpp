// The instances of spec/Config.tla Kinds, in that order.
static constexpr Decl KINDS[] = {
    // family, part, select method, less better, objectives, arguments, i, f, c, m
    {SOGA_, 0, 10, 1, 1, 1, 0, 0, 0, 0}, {SOGA_, 0, 10, 0, 1, 0, 0, 0, 0, 0}, {SOGA_, 0, 0, 1, 1, 0, 9, 0, 9, 0},
    {SOGA_, 0, 1, 0, 1, 1, 0, 9, 0, 9},  {SOGA_, 0, 5, 1, 1, 1, 9, 9, 0, 0},  {SOGA_, 1, 6, 0, 1, 0, 0, 0, 9, 9},
    {SOGA_, 1, 7, 1, 1, 1, 9, 0, 0, 9},  {SOGA_, 1, 7, 0, 1, 1, 0, 9, 9, 0},  {SOGA_, 1, 9, 1, 1, 0, 9, 9, 9, 9},
    {NSGA2_, 2, 0, 1, 2, 1, 0, 0, 0, 0}, {NSGA2_, 2, 0, 1, 0, 0, 0, 9, 0, 9}, {NSGA2_, 2, 0, 1, 3, 0, 9, 0, 9, 0},
    {NSGA2_, 2, 0, 1, 0, 1, 0, 0, 0, 0}, {NSGA3_, 2, 0, 1, 3, 1, 0, 0, 0, 0}, {NSGA3_, 2, 0, 1, 0, 1, 9, 0, 0, 9},
    {NSGA3D_, 2, 0, 1, 0, 1, 0, 0, 0, 0}, {NSGA3D_, 2, 0, 1, 3, 0, 0, 9, 9, 0},
    {PSO_, 3, 0, 1, 1, 1, 8, 0, 0, 0},   {PSO_, 3, 0, 1, 1, 1, 0, 0, 0, 0},   {PSO_, 3, 0, 1, 1, 0, 9, 0, 0, 0},
    {PSO_, 3, 0, 1, 1, 0, 0, 9, 0, 0},   {PSO_, 3, 0, 1, 1, 1, 9, 9, 0, 0},
    {AOS_, 4, 0, 1, 1, 1, 8, 0, 0, 0},   {AOS_, 4, 0, 1, 1, 1, 0, 0, 0, 0},   {AOS_, 4, 0, 1, 1, 0, 9, 0, 0, 0},
    {AOS_, 4, 0, 1, 1, 0, 0, 9, 0, 0},   {AOS_, 4, 0, 1, 1, 1, 0, 9, 0, 0}};
