U = 'c++/triqs/utility/'
B = U + 'buffered_function.hpp'
L = U + 'legendre.hpp'
LC = U + 'legendre.cpp'
SH = U + 'signal_handler.cpp'
CB = U + 'callbacks.cpp'
N = U + 'numeric_ops.hpp'
R = U + 'report_stream.hpp'
SG = U + 'scope_guard.hpp'
ST = U + 'stack_trace.cpp'
T = U + 'timer.hpp'
TS = U + 'tuple_serialize.hpp'
TN = U + 'typeid_name.cpp'
V = U + 'variant_extensions.hpp'
A = 'c++/triqs/mc_tools/mc_measure_aux_set.hpp'
M = 'c++/triqs/mc_tools/MersenneRNG.hpp'
MC = 'c++/triqs/mc_tools/MersenneRNG.cpp'
S = 'c++/triqs/hilbert_space/space_partition.hpp'
CASES = [
 ('2buf ctor delegate', 'C01', [(B, '''        refill = [f](buffered_function *bf) mutable { // without the mutable, the () of the lambda object is const, hence f
          for (auto &x : bf->buffer) x = f();
          bf->index = 0;
        };
''', '''        refill = [fun = f](buffered_function *bf) mutable {
          auto &b      = bf->buffer;
          size_t const n = b.size();
          for (size_t k = 0; k < n; k++) b[k] = fun();
          bf->index = 0;
        };
''')]),
 ('2buf while', 'C01', [(B, '''          for (auto &x : bf->buffer) x = f();
''', '''          auto it = bf->buffer.begin();
          while (it != bf->buffer.end()) {
            *it = f();
            ++it;
          }
''')]),
 ('2buf exhausted', 'C01', [(B, '''        if (index >= buffer.size()) refill(this);
        return buffer[index++];
''', '''        if (exhausted()) refill(this);
        return buffer[index++];
'''), (B, '''        if (index >= buffer.size()) refill(this);
        return buffer[index];
''', '''        if (exhausted()) refill(this);
        return buffer[index];
'''), (B, '''      private:
''', '''      private:
      bool exhausted() const { return !(index < buffer.size()); }
''')]),
 ('2buf current', 'C01', [(B, '''        if (index >= buffer.size()) refill(this);
        return buffer[index++];
''', '''        return current(index >= buffer.size())[index++];
'''), (B, '''      private:
''', '''      private:
      std::vector<R> &current(bool empty) {
        if (empty) refill(this);
        return buffer;
      }
''')]),
 ('2buf at tmp', 'C01', [(B, '''        return buffer[index++];
''', '''        R const res = buffer[index];
        index += 1;
        return res;
''')]),
 ('2rng idx', 'C02', [(M, '''          uint32 *p0 = state, *p2 = state + 2, *pM = state + M, s0, s1;
          int j;

          if (left < -1) seedMT(initseed);

          left = N - 1, next = state + 1;

          for (s0 = state[0], s1 = state[1], j = N - M + 1; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);

          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);

          s1 = state[0], *p0 = *pM ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''', '''          uint32 s0, s1;

          if (left < -1) seedMT(initseed);

          left = N - 1;
          next = state + 1;

          int k;
          for (k = 0; k < N - M; ++k) state[k] = state[k + M] ^ (mixBits(state[k], state[k + 1]) >> 1) ^ (loBit(state[k + 1]) ? K : 0U);
          for (; k < N - 1; ++k) state[k] = state[k + M - N] ^ (mixBits(state[k], state[k + 1]) >> 1) ^ (loBit(state[k + 1]) ? K : 0U);
          s0 = state[N - 1];
          s1 = state[0];
          state[N - 1] = state[M - 1] ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''')]),
 ('2rng temper', 'C02', [(M, '''          s1 ^= (s1 >> 11);
          s1 ^= (s1 << 7) & 0x9D2C5680U;
          s1 ^= (s1 << 15) & 0xEFC60000U;
          return (s1 ^ (s1 >> 18));
        }
''', '''          return temper(s1);
        }

        static uint32 temper(uint32 y) {
          y ^= (y >> 11);
          y ^= (y << 7) & 0x9D2C5680U;
          y ^= (y << 15) & 0xEFC60000U;
          return (y ^ (y >> 18));
        }
'''), (M, '''          y ^= (y >> 11);
          y ^= (y << 7) & 0x9D2C5680U;
          y ^= (y << 15) & 0xEFC60000U;
          return (y ^ (y >> 18));
        }

        double''', '''          return temper(y);
        }

        double''')]),
 ('2rng twist', 'C02', [(M, '''j = N - M + 1; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''', '''j = N - M + 1; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ twist(s0, s1);
'''), (M, '''          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''', '''          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ twist(s0, s1);
'''), (M, '''        uint32 reloadMT(void) {''', '''        inline uint32 twist(uint32 u, uint32 v) { return (mixBits(u, v) >> 1) ^ (loBit(v) ? K : 0U); }

        uint32 reloadMT(void) {''')]),
 ('2rng seed loop', 'C02', [(M, '''          uint32 x = (seed | 1U) & 0xFFFFFFFFU, *s = state;
          int j;
          left = 0;
          for (*s++ = x, j = N; --j; *s++ = (x *= 69069U) & 0xFFFFFFFFU)
            ;
''', '''          uint32 x = (seed | 1U) & 0xFFFFFFFFU;
          state[0] = x;
          for (int j = 1; j < N; ++j) {
            x *= 69069U;
            state[j] = x & 0xFFFFFFFFU;
          }
          left = 0;
''')]),
 ('2rng copy', 'C02', [(M, '''RandMT(RandMT const &R) { seedMT(R.seed_save); }''', '''RandMT(RandMT const &R) : RandMT(R.seed_save) {}''')]),
 ('2rng default', 'C02', [(M, '''RandMT() { seedMT(1U); }''', '''RandMT() : RandMT(1U) {}''')]),
 ('2rng eval', 'C02', [(MC, '''        return ((double)(randomMT()) / 0xFFFFFFFFU);
''', '''        auto const y = static_cast<double>(randomMT());
        return y / 0xFFFFFFFFU;
''')]),
 ('2rng op', 'C02', [(M, '''        double operator()() { return DBL_EPSILON + eval() * (1 - 2 * DBL_EPSILON); }
''', '''        double operator()() {
          constexpr double eps = DBL_EPSILON;
          return eps + eval() * (1 - 2 * eps);
        }
''')]),
 ('2rng random', 'C02', [(M, '''          uint32 y;

          if (--left < 0) return (reloadMT());

          y = *next++;
''', '''          left = left - 1;
          if (left < 0) return reloadMT();

          uint32 y = *next;
          ++next;
''')]),
 ('2sg swap member', 'C03', [(SG, '''        using std::swap;
        swap(f_, rhs.f_);
        swap(active_, rhs.active_);
        return *this;
      }
''', '''        exchange_with(rhs);
        return *this;
      }

      private:
      void exchange_with(scope_guard &rhs) {
        std::swap(active_, rhs.active_);
        std::swap(f_, rhs.f_);
      }
''')]),
 ('2sg ctor body', 'C03', [(SG, '''      scope_guard(scope_guard &&rhs) : f_(std::move(rhs.f_)), active_(rhs.active_) { rhs.dismiss(); }''', '''      scope_guard(scope_guard &&rhs) : f_(std::move(rhs.f_)) {
        active_     = rhs.active_;
        rhs.active_ = false;
      }''')]),
 ('2sg plus', 'C03', [(SG, '''{ return {std::forward<F>(f)}; }''', '''{ return make_scope_guard<F>(std::forward<F>(f)); }''')]),
 ('2sg default init', 'C03', [(SG, '''      bool active_;
''', '''      bool active_ = true;
'''), (SG, '''f_(std::move(f)), active_(true) {}''', '''f_(std::move(f)) {}''')]),
 ('2sig loop', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
      sigaction(SIGXCPU, &action, NULL);
      sigaction(SIGQUIT, &action, NULL);
      sigaction(SIGUSR1, &action, NULL);
      sigaction(SIGUSR2, &action, NULL);
      sigaction(SIGSTOP, &action, NULL);
''', '''      for (int sig : {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2, SIGSTOP}) sigaction(sig, &action, NULL);
''')]),
 ('2sig clear', 'C04', [(SH, '''      signals_list.clear();
      initialized = false;
''', '''      initialized = false;
      signals_list.clear();
''')]),
 ('2sig early', 'C04', [(SH, '''      bool r = signals_list.size() != 0;
      if (r && pop_) pop();
      return r;
''', '''      if (signals_list.empty()) return false;
      if (pop_) pop();
      return true;
''')]),
 ('2sig local action', 'C04', [(SH, '''      static struct sigaction action;
      memset(&action, 0, sizeof(action));
''', '''      struct sigaction action;
      memset(&action, 0, sizeof(action));
''')]),
 ('2sig back', 'C04', [(SH, '''int last() { return signals_list.back(); }''', '''int last() { return *(signals_list.end() - 1); }''')]),
 ('2cb cond', 'C05', [(CB, '''      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      return [end_time]() {
        auto const now = std::chrono::system_clock::now();
        return end_time < now;
      };
''')]),
 ('2cb using', 'C05', [(CB, '''      auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      using clock = std::chrono::system_clock;
      std::chrono::seconds const duration(time_in_seconds);
      clock::time_point const limit = clock::now() + duration;
      return [limit]() { return clock::now() > limit; };
''')]),
 ('2cb never', 'C05', [(CB, '''      if (time_in_seconds <= 0) return []() { return false; };
''', '''      bool const limited = time_in_seconds > 0;
      if (!limited) {
        auto never = []() { return false; };
        return never;
      }
''')]),
 ('2cb static fn', 'C05', [(CB, '''    std::function<bool()> clock_callback(int time_in_seconds) {
''', '''    static bool expired(std::chrono::system_clock::time_point const &t) { return std::chrono::system_clock::now() > t; }

    std::function<bool()> clock_callback(int time_in_seconds) {
'''), (CB, '''      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      return [end_time]() { return expired(end_time); };
''')]),
 ('2cb ternary', 'C05', [(CB, '''      if (time_in_seconds <= 0) return []() { return false; };

      auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      std::function<bool()> result = []() { return false; };
      if (time_in_seconds > 0) {
        auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
        result        = [end_time]() { return (std::chrono::system_clock::now() > end_time); };
      }
      return result;
''')]),
 ('2timer elapsed', 'C06', [(T, '''        total_time += clock_t::now() - start_time;
        running = false;
''', '''        total_time += elapsed();
        running = false;
'''), (T, '''        if (is_running()) total_time_seconds += clock_t::now() - start_time;
''', '''        if (is_running()) total_time_seconds += elapsed();
'''), (T, '''      public:
      void start() {''', '''      clock_t::duration elapsed() const { return clock_t::now() - start_time; }

      public:
      void start() {''')]),
 ('2timer running', 'C06', [(T, '''        if (is_running()) total_time_seconds +=''', '''        if (running) total_time_seconds +=''')]),
 ('2timer early', 'C06', [(T, '''        std::chrono::duration<double> total_time_seconds(total_time);
        if (is_running()) total_time_seconds += clock_t::now() - start_time;
        return total_time_seconds.count();
''', '''        using seconds = std::chrono::duration<double>;
        seconds t(total_time);
        if (!running) return t.count();
        t += clock_t::now() - start_time;
        return t.count();
''')]),
 ('2timer stop plus', 'C06', [(T, '''        total_time += clock_t::now() - start_time;
        running = false;
''', '''        auto const now = clock_t::now();
        running    = false;
        total_time = total_time + (now - start_time);
''')]),
 ('2rep on', 'C07', [(R, '''        if (verbosity > 0) (*out) << x;
''', '''        if (enabled()) *out << x;
'''), (R, '''        if (verbosity > 0) manip(*out);
''', '''        if (enabled()) manip(*out);
'''), (R, '''      public:
''', '''      bool enabled() const { return verbosity >= 1; }

      public:
''')]),
 ('2rep call', 'C07', [(R, '''{ return report_stream(out, verbosity - n + 1); }''', '''{
        int const v = verbosity + 1 - n;
        return {out, v};
      }''')]),
 ('2rep manip', 'C07', [(R, '''        if (verbosity > 0) manip(*out);
        return *this;
''', '''        if (verbosity <= 0) return *this;
        *out << manip;
        return *this;
''')]),
 ('2num zero', 'C08', [(N, '''      return is_zero(std::real(x), tolerance) && is_zero(std::imag(x), tolerance);
''', '''      if (!is_zero(x.real(), tolerance)) return false;
      return is_zero(x.imag(), tolerance);
''')]),
 ('2num fp', 'C08', [(N, '''      return std::abs(x) < tolerance;
''', '''      return !(std::abs(x) >= tolerance) and x == x;
''')]),
 ('2num fp2', 'C08', [(N, '''      return std::abs(x) < tolerance;
''', '''      return tolerance > std::abs(x);
''')]),
 ('2num default', 'C08', [(N, '''    template <typename T> // Floating-point types
    std::enable_if_t<std::is_floating_point<T>::value, bool> is_zero(T const &x, T tolerance = 100 * std::numeric_limits<T>::epsilon()) {
''', '''    template <typename T> constexpr T default_tolerance() { return 100 * std::numeric_limits<T>::epsilon(); }

    template <typename T> // Floating-point types
    std::enable_if_t<std::is_floating_point<T>::value, bool> is_zero(T const &x, T tolerance = default_tolerance<T>()) {
''')]),
 ('2ts if constexpr', 'C09', [(TS, '''      tuple_serialize_impl<sizeof...(ElementTypes) - 1>()(ar, t);
''', '''      constexpr int n = sizeof...(ElementTypes);
      tuple_serialize_impl<n - 1> impl;
      impl(ar, t);
''')]),
 ('2ts dir', 'C09', [(TS, '''        ar &std::get<std::tuple_size<T>::value - 1 - pos>(t);
''', '''        constexpr auto last = std::tuple_size<T>::value - 1;
        ar &std::get<last - pos>(t);
''')]),
 ('2leg ternary', 'C10', [(L, '''      if (n > 1) {
        unsigned int eo = (n) % 2;
        cyclicArray[eo] = ((2 * n - 1) * _x * cyclicArray[1 - eo] - (n - 1) * cyclicArray[eo]) / n;
        n++;
        return cyclicArray[eo];
      } else {
        n++;
        return cyclicArray[n - 1];
      }
''', '''      unsigned int const k = n++;
      if (k < 2) return cyclicArray[k];
      double const &prev = cyclicArray[1 - k % 2];
      double &cur        = cyclicArray[k % 2];
      cur                = ((2 * k - 1) * _x * prev - (k - 1) * cur) / k;
      return cur;
''')]),
 ('2leg helper', 'C10', [(L, '''        cyclicArray[eo] = ((2 * n - 1) * _x * cyclicArray[1 - eo] - (n - 1) * cyclicArray[eo]) / n;
''', '''        cyclicArray[eo] = step(cyclicArray[1 - eo], cyclicArray[eo]);
'''), (L, '''    public:
''', '''    double step(double p1, double p2) const { return ((2 * n - 1) * _x * p1 - (n - 1) * p2) / n; }

    public:
''')]),
 ('2leg bit', 'C10', [(L, '''(n) % 2;''', '''n & 1u;''')]),
 ('2leg T cond', 'C10', [(LC, '''  bool neg_n = false;
  if (n < 0) {
    neg_n = true;
    n     = std::abs(n + 1);
  }
''', '''  bool const neg_n = (n < 0);
  if (neg_n) n = -(n + 1);
''')]),
 ('2leg t fact', 'C10', [(LC, '''  for (int i = l + p - 1; (i > l - p + 1) && (i > 1); i--) f *= i;
  for (int i = p - 1; i > 1; i--) f /= i;
''', '''  int const low = l - p + 1;
  int k         = l + p - 1;
  while (k > low && k > 1) {
    f *= k;
    --k;
  }
  for (k = p - 1; k > 1; --k) f /= k;
''')]),
 ('2leg i', 'C10', [(LC, '''  if (x == 0) return (n == 0 ? 1.0 : 0);
  return std::sqrt(M_PI / (2 * x)) * boost::math::cyl_bessel_i(n + 0.5, x);
''', '''  if (x != 0) {
    double const prefactor = std::sqrt(M_PI / (2 * x));
    return prefactor * boost::math::cyl_bessel_i(n + 0.5, x);
  }
  if (n == 0) return 1.0;
  return 0.0;
''')]),
 ('2part mapping method', 'C11', [(S, '''            auto i_subspace = subspaces.find_set(i);
            auto f_subspace = subspaces.find_set(f);
            if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
''', '''            _connect(i, f);
'''), (S, '''      /// Copy-constructor
''', '''      private:
      void _connect(idx_t a, idx_t b) {
        auto ra = subspaces.find_set(a), rb = subspaces.find_set(b);
        if (ra != rb) subspaces.link(ra, rb);
      }

      public:
      /// Copy-constructor
''')]),
 ('2part zigzag ref', 'C11', [(S, '''            std::multimap<idx_t, idx_t>::iterator it;
            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {

              auto f_subspace = it->second;
              (upwards ? Cd_connections : C_connections).erase(it);

              if (upwards)
                subspaces.link(f_subspace, upper_subspace);
              else
                subspaces.link(f_subspace, lower_subspace);
''', '''            auto &connections = upwards ? Cd_connections : C_connections;
            for (auto it = connections.find(i_subspace); it != connections.end(); it = connections.find(i_subspace)) {

              idx_t const f_subspace = it->second;
              connections.erase(it);
              subspaces.link(f_subspace, upwards ? upper_subspace : lower_subspace);
''')]),
 ('2part begin', 'C11', [(S, '''          idx_t lower_subspace, upper_subspace;
          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
''', '''          auto const first           = Cd_connections.begin();
          idx_t const lower_subspace = first->first;
          idx_t const upper_subspace = first->second;
''')]),
 ('2part map flags', 'C11', [(S, '''            if ((!diagonal_only) || i_subspace == f_subspace)
              mapping.insert(std::make_pair(representative_to_index[i_subspace], representative_to_index[f_subspace]));
''', '''            if (diagonal_only && i_subspace != f_subspace) return;
            auto const from = representative_to_index[i_subspace];
            auto const to   = representative_to_index[f_subspace];
            mapping.insert({from, to});
''')]),
 ('2part while', 'C11', [(S, '''        for (idx_t n = 0; n < SP.tmp_state.size(); ++n) L(n, SP.lookup_basis_state(n));
''', '''        idx_t n          = 0;
        auto const n_max = SP.tmp_state.size();
        while (n < n_max) {
          L(n, SP.lookup_basis_state(n));
          ++n;
        }
''')]),
 ('2v iter', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
    return os;
''', '''    bool first = true;
    for (auto const &i : fs) {
      if (first)
        first = false;
      else
        os << ",";
      os << i;
    }
    return os;
''')]),
 ('2v begin', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
    return os;
''', '''    for (auto it = fs.begin(); it != fs.end(); ++it) {
      if (it != fs.begin()) os << ",";
      os << *it;
    }
    return os;
''')]),
 ('2v empty', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
    return os;
''', '''    if (fs.empty()) return os;
    os << fs[0];
    for (size_t i = 1; i < fs.size(); ++i) os << "," << fs[i];
    return os;
''')]),
 ('2v visit', 'C12', [(V, '''    visit([&os](auto const &x) { os << x; }, v);
    return os;
''', '''    auto print = [&os](auto const &x) { os << x; };
    std::visit(print, v);
    return os;
''')]),
 ('2tn split', 'C12', [(TN, '''        std::string res(demangled);
        boost::erase_all(res, ", boost::tuples::null_type");
        boost::erase_all(res, ", -1");
        boost::erase_all(res, ", void");
        fs << res;
        free(demangled);
''', '''        fs << cleanup(demangled);
        free(demangled);
'''), (TN, '''    std::string demangle(const char *name) {
''', '''    static std::string cleanup(std::string res) {
      boost::erase_all(res, ", boost::tuples::null_type");
      boost::erase_all(res, ", -1");
      boost::erase_all(res, ", void");
      return res;
    }

    std::string demangle(const char *name) {
''')]),
 ('2tn free', 'C12', [(TN, '''        std::string res(demangled);
''', '''        std::string res = demangled;
        free(demangled);
'''), (TN, '''        fs << res;
        free(demangled);
''', '''        fs << res;
''')]),
 ('2st reader', 'C12', [(ST, '''    const int max_buffer = 256;
    char buffer2[max_buffer];
    std::string pipe_output;
    FILE *stream = popen(cmd.c_str(), "r");
    if (stream) {
      while (!feof(stream))
        if (fgets(buffer2, max_buffer, stream) != NULL) pipe_output.append(buffer2);
      pclose(stream);
    }

    std::stringstream ss(pipe_output);
''', '''    std::stringstream ss(read_pipe(cmd));
'''), (ST, '''  std::string stack_trace() {
''', '''  static std::string read_pipe(std::string const &cmd) {
    const int max_buffer = 256;
    char buffer2[max_buffer];
    std::string pipe_output;
    FILE *stream = popen(cmd.c_str(), "r");
    if (stream) {
      while (!feof(stream))
        if (fgets(buffer2, max_buffer, stream) != NULL) pipe_output.append(buffer2);
      pclose(stream);
    }
    return pipe_output;
  }

  std::string stack_trace() {
''')]),
 ('2st loop', 'C12', [(ST, '''    while (std::getline(ss, to, '\\n')) {
      if (to.find(PYTHON_SENTINEL) != std::string::npos) break;
      r += to + '\\n';
    }
''', '''    while (std::getline(ss, to, '\\n') && to.find(PYTHON_SENTINEL) == std::string::npos) {
      r += to;
      r += '\\n';
    }
''')]),
 ('2aux list', 'C14', [(A, '''        impl_ = p;
        call_ = [p]() mutable { (*p)(); };''', '''        call_ = [q = p]() mutable { (*q)(); };
        impl_ = p;''')]),
 ('2aux get', 'C14', [(A, '''(*p)(); };''', '''p->operator()(); };''')]),
]
