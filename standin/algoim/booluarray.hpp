// Stand-in of Algoim's masks: where in the unit box a polynomial may vanish; here either nowhere or anywhere.
#ifndef STANDIN_ALGOIM_BOOLUARRAY_HPP
#define STANDIN_ALGOIM_BOOLUARRAY_HPP
#define ALGOIM_M 8
namespace algoim {
template<int N, int E> struct booluarray
{
  bool any = false;
  booluarray() = default;
  explicit booluarray(bool b) : any(b) {}
};
}// namespace algoim
#endif
