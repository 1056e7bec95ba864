exec(open('/verif/tools/bugs/head.py').read())
id='p02_vmax'; prop='P02'
edits=[(BWV,"""      at(*v, idx) = std::max(at(*v, idx), -at(_maxVelocityV, idx));""","""      at(*v, idx) = std::max(at(*v, idx), -at(_maxVelocityV, idx / 2));""")]
needs="a rectangle box whose velocity limits differ between dimensions, and a particle fast in the negative direction"
breaks="particles exceed (or never reach) the velocity limit of their dimension"
demo=PHEAD+r'''
using V = std::array<double, 3>;
static heu::PSO<V, heu::RECTANGLE_BOX> s;
static bool bad = false;
int main() {
  heu::internal::global_mt19937().seed(5);
  s.setfFun([](const V* v, double* f) {
    *f = std::abs((*v)[0] - 9) + std::abs((*v)[1] + 9) + std::abs((*v)[2] + 9);
    for (auto& p : s.population())
      for (int i = 0; i < 3; i++)
        if (p.velocity.size() == 3 && std::abs(p.velocity[i]) > s.maxVelocity(i) + 1e-9) bad = true;
  });
  s.setPVRange(V{-10, -10, -10}, V{10, 10, 10}, V{4, 1, 0.5});
  heu::setThreadNum(1);
  heu::PSOOption o;
  o.populationSize = 20; o.maxGeneration = 30;
  s.setOption(o);
  s.initializePop(); s.run();
  return bad;
}
'''
env="OMP_NUM_THREADS=1"
