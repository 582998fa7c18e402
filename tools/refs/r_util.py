U = 'c++/triqs/utility/'
B = U + 'buffered_function.hpp'
L = U + 'legendre.hpp'
LC = U + 'legendre.cpp'
SH = U + 'signal_handler.cpp'
CB = U + 'callbacks.cpp'
N = U + 'numeric_ops.hpp'
R = U + 'report_stream.hpp'
SG = U + 'scope_guard.hpp'
ST = U + 'stack_trace.cpp'
T = U + 'timer.hpp'
TS = U + 'tuple_serialize.hpp'
TN = U + 'typeid_name.cpp'
V = U + 'variant_extensions.hpp'
A = 'c++/triqs/mc_tools/mc_measure_aux_set.hpp'
M = 'c++/triqs/mc_tools/MersenneRNG.hpp'
MC = 'c++/triqs/mc_tools/MersenneRNG.cpp'
BR = '''        if (index >= buffer.size()) refill(this);
        return buffer[index++];
'''
CASES = [
 ('buf helper', 'C01', [(B, BR, '''        _ensure();
        return buffer[index++];
'''), (B, '''        if (index >= buffer.size()) refill(this);
        return buffer[index];
''', '''        _ensure();
        return buffer[index];
'''), (B, '''      private:
      size_t index = 0;''', '''      private:
      void _ensure() {
        if (index >= buffer.size()) refill(this);
      }
      size_t index = 0;''')]),
 ('buf next via preview', 'C01', [(B, BR, '''        R next = preview();
        ++index;
        return next;
''')]),
 ('buf loop', 'C01', [(B, '''          for (auto &x : bf->buffer) x = f();
          bf->index = 0;
''', '''          bf->index = 0;
          for (size_t i = 0; i < bf->buffer.size(); ++i) bf->buffer[i] = f();
''')]),
 ('buf iter', 'C01', [(B, '''          for (auto &x : bf->buffer) x = f();
''', '''          for (auto it = bf->buffer.begin(); it != bf->buffer.end(); ++it) *it = f();
''')]),
 ('buf ref', 'C01', [(B, '''          for (auto &x : bf->buffer) x = f();
          bf->index = 0;
''', '''          auto &data = bf->buffer;
          for (auto &x : data) { x = f(); }
          bf->index = 0;
''')]),
 ('buf generate', 'C01', [(B, '''          for (auto &x : bf->buffer) x = f();
''', '''          std::generate(bf->buffer.begin(), bf->buffer.end(), f);
''')]),
 ('buf negate', 'C01', [(B, BR, '''        bool const available = index < buffer.size();
        if (!available) refill(this);
        auto const current = index;
        index = current + 1;
        return buffer[current];
''')]),
 ('buf init list', 'C01', [(B, ''': buffer(size) {
        refill = [f]''', ''': buffer(size) {
        std::function<void(buffered_function *)> fill = [f]'''), (B, '''        };
        refill(this); // first filling of the buffer''', '''        };
        refill = std::move(fill);
        refill(this); // first filling of the buffer''')]),
 ('leg branches', 'C10', [(L, '''      if (n > 1) {
        unsigned int eo = (n) % 2;
        cyclicArray[eo] = ((2 * n - 1) * _x * cyclicArray[1 - eo] - (n - 1) * cyclicArray[eo]) / n;
        n++;
        return cyclicArray[eo];
      } else {
        n++;
        return cyclicArray[n - 1];
      }
''', '''      if (n <= 1) return cyclicArray[n++];
      unsigned int eo = n % 2;
      double const previous = cyclicArray[1 - eo];
      cyclicArray[eo] = ((2 * n - 1) * _x * previous - (n - 1) * cyclicArray[eo]) / n;
      ++n;
      return cyclicArray[eo];
''')]),
 ('leg common index', 'C10', [(L, '''      if (n > 1) {
        unsigned int eo = (n) % 2;
        cyclicArray[eo] = ((2 * n - 1) * _x * cyclicArray[1 - eo] - (n - 1) * cyclicArray[eo]) / n;
        n++;
        return cyclicArray[eo];
      } else {
        n++;
        return cyclicArray[n - 1];
      }
''', '''      unsigned int const eo = n & 1;
      if (n > 1) cyclicArray[eo] = ((2 * n - 1) * _x * cyclicArray[1 - eo] - (n - 1) * cyclicArray[eo]) / n;
      n++;
      return cyclicArray[eo];
''')]),
 ('leg reset order', 'C10', [(L, '''      _x             = x;
      n              = 0;
      cyclicArray[0] = 1.0;
      cyclicArray[1] = x;
''', '''      cyclicArray[1] = _x = x;
      cyclicArray[0] = 1;
      n              = 0;
''')]),
 ('leg T helper', 'C10', [(LC, '''  bool neg_n = false;
  if (n < 0) {
    neg_n = true;
    n     = std::abs(n + 1);
  }
''', '''  bool const neg_n = n < 0;
  if (neg_n) n = std::abs(n + 1);
''')]),
 ('leg T recursion', 'C10', [(LC, '''  bool neg_n = false;
  if (n < 0) {
    neg_n = true;
    n     = std::abs(n + 1);
  }
''', '''  if (n < 0) return std::conj(legendre_T(std::abs(n + 1), l));
'''), (LC, '''  return neg_n ? std::conj(res) : res;''', '''  return res;''')]),
 ('leg T factor', 'C10', [(LC, '''  std::complex<double> res =
     (sqrt(2 * l + 1) / sqrt(2 * n + 1)) * exp(1i * (n + 0.5) * M_PI) * std::pow(1i, l) * boost::math::cyl_bessel_j(l + 0.5, (n + 0.5) * M_PI);
''', '''  double const half_integer = n + 0.5;
  auto const norm = sqrt(2 * l + 1) / sqrt(2 * n + 1);
  auto const phase = exp(1i * half_integer * M_PI) * std::pow(1i, l);
  std::complex<double> res = norm * phase * boost::math::cyl_bessel_j(l + 0.5, half_integer * M_PI);
''')]),
 ('leg t split', 'C10', [(LC, '''  if ((l + p) % 2 == 0 || p > l + 1) return 0.0;
''', '''  if ((l + p) % 2 == 0) return 0.0;
  if (p > l + 1) return 0.0;
''')]),
 ('leg t loops', 'C10', [(LC, '''  for (int i = l + p - 1; (i > l - p + 1) && (i > 1); i--) f *= i;
  for (int i = p - 1; i > 1; i--) f /= i;
''', '''  int i = l + p - 1;
  while (i > l - p + 1 && i > 1) {
    f *= i;
    --i;
  }
  for (int j = p - 1; j > 1; --j) { f /= j; }
''')]),
 ('leg t upward', 'C10', [(LC, '''  for (int i = p - 1; i > 1; i--) f /= i;
''', '''  for (int i = 2; i < p; i++) f /= i;
''')]),
 ('leg t sign', 'C10', [(LC, '''  return std::pow(double(-1), double(p)) * 2 * sqrt(2 * l + 1) * f;
''', '''  double const sign = std::pow(double(-1), double(p));
  return 2 * sign * f * sqrt(2 * l + 1);
''')]),
 ('leg i', 'C10', [(LC, '''  if (x == 0) return (n == 0 ? 1.0 : 0);
''', '''  if (x == 0) {
    if (n == 0) return 1.0;
    return 0.0;
  }
''')]),
 ('sig helper', 'C04', [(SH, '''      static struct sigaction action;
      memset(&action, 0, sizeof(action));
      action.sa_handler = slot;
      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
      sigaction(SIGXCPU, &action, NULL);
      sigaction(SIGQUIT, &action, NULL);
      sigaction(SIGUSR1, &action, NULL);
      sigaction(SIGUSR2, &action, NULL);
      sigaction(SIGSTOP, &action, NULL);
''', '''      static struct sigaction action;
      memset(&action, 0, sizeof(action));
      action.sa_handler = slot;
      for (int s : {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2, SIGSTOP}) sigaction(s, &action, NULL);
''')]),
 ('sig helper2', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
''', '''      install(SIGINT, action);
      install(SIGTERM, action);
'''), (SH, '''        signals_list.push_back(signal);
      }
''', '''        signals_list.push_back(signal);
      }
      void install(int s, struct sigaction const &action) { sigaction(s, &action, nullptr); }
''')]),
 ('sig nullptr', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);''', '''      sigaction(SIGINT, &action, nullptr);''')]),
 ('sig order', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
''', '''      sigaction(SIGTERM, &action, NULL);
      sigaction(SIGINT, &action, NULL);
''')]),
 ('sig array', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
      sigaction(SIGXCPU, &action, NULL);
      sigaction(SIGQUIT, &action, NULL);
      sigaction(SIGUSR1, &action, NULL);
      sigaction(SIGUSR2, &action, NULL);
      sigaction(SIGSTOP, &action, NULL);
''', '''      static const int handled[] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2, SIGSTOP};
      for (int s : handled) sigaction(s, &action, NULL);
''')]),
 ('sig array idx', 'C04', [(SH, '''      sigaction(SIGINT, &action, NULL);
      sigaction(SIGTERM, &action, NULL);
      sigaction(SIGXCPU, &action, NULL);
      sigaction(SIGQUIT, &action, NULL);
      sigaction(SIGUSR1, &action, NULL);
      sigaction(SIGUSR2, &action, NULL);
      sigaction(SIGSTOP, &action, NULL);
''', '''      const int handled[7] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2, SIGSTOP};
      for (int k = 0; k < 7; ++k) sigaction(handled[k], &action, NULL);
''')]),
 ('sig invert', 'C04', [(SH, '''      if (initialized) return;
      static struct''', '''      if (initialized) { return; }
      initialized = true;
      static struct'''), (SH, '''      sigaction(SIGSTOP, &action, NULL);
      initialized = true;
''', '''      sigaction(SIGSTOP, &action, NULL);
''')]),
 ('sig received', 'C04', [(SH, '''      bool r = signals_list.size() != 0;
      if (r && pop_) pop();
      return r;
''', '''      if (signals_list.empty()) return false;
      if (pop_) signals_list.pop_back();
      return true;
''')]),
 ('sig last', 'C04', [(SH, '''int last() { return signals_list.back(); }''', '''int last() { return signals_list[signals_list.size() - 1]; }''')]),
 ('sig pop', 'C04', [(SH, '''void pop() { return signals_list.pop_back(); }''', '''void pop() { signals_list.pop_back(); }''')]),
 ('sig swap clear', 'C04', [(SH, '''      signals_list.clear();
      initialized = false;
''', '''      initialized = false;
      signals_list.clear();
''')]),
 ('cb order', 'C05', [(CB, '''      auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      using clock = std::chrono::system_clock;
      auto const limit = std::chrono::seconds(time_in_seconds);
      auto const end_time = clock::now() + limit;
      return [end_time]() {
        auto const now = clock::now();
        return now > end_time;
      };
''')]),
 ('cb invert', 'C05', [(CB, '''      if (time_in_seconds <= 0) return []() { return false; };

      auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
''', '''      if (time_in_seconds > 0) {
        auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
        return [end_time]() { return end_time < std::chrono::system_clock::now(); };
      }
      return []() { return false; };
''')]),
 ('cb helper', 'C05', [(CB, '''      if (time_in_seconds <= 0) return []() { return false; };
''', '''      if (time_in_seconds <= 0) return never();
'''), (CB, '''    std::function<bool()> clock_callback(''', '''    namespace {
      std::function<bool()> never() {
        return []() { return false; };
      }
    } // namespace
    std::function<bool()> clock_callback(''')]),
 ('num zero', 'C08', [(N, '''      return is_zero(std::real(x), tolerance) && is_zero(std::imag(x), tolerance);
''', '''      bool const re = is_zero(std::real(x), tolerance);
      bool const im = is_zero(std::imag(x), tolerance);
      return re && im;
''')]),
 ('num zero2', 'C08', [(N, '''      return is_zero(std::real(x), tolerance) && is_zero(std::imag(x), tolerance);
''', '''      if (!is_zero(x.real(), tolerance)) return false;
      return is_zero(x.imag(), tolerance);
''')]),
 ('num int', 'C08', [(N, '''      return x == 0;
''', '''      return !x;
''')]),
 ('num int2', 'C08', [(N, '''      return x == 0;
''', '''      return x == T(0);
''')]),
 ('num imag', 'C08', [(N, '''    template <typename T> // Integral types
    std::enable_if_t<std::is_integral<T>::value, T> imag(T const &x) {
      return T{};
''', '''    template <typename T> // Integral types
    std::enable_if_t<std::is_integral<T>::value, T> imag(T const &) {
      return T(0);
''')]),
 ('num conj', 'C08', [(N, '''      return std::conj(x);
''', '''      return T(std::real(x), -std::imag(x));
''')]),
 ('num merge', 'C08', [(N, '''    template <typename T> // Integral types
    std::enable_if_t<std::is_integral<T>::value, T> conj(T const &x) {
      return x;
    }

    template <typename T> // Floating-point types
    std::enable_if_t<std::is_floating_point<T>::value, T> conj(T const &x) {
      return x;
    }
''', '''    template <typename T> // Integral and floating-point types
    std::enable_if_t<std::is_arithmetic<T>::value, T> conj(T const &x) {
      return x;
    }
''')]),
 ('rep helper', 'C07', [(R, '''        if (verbosity > 0) (*out) << x;
        return *this;
''', '''        if (enabled()) (*out) << x;
        return *this;
'''), (R, '''        if (verbosity > 0) manip(*out);
''', '''        if (enabled()) manip(*out);
'''), (R, '''      std::ostream *out;
      int verbosity;
''', '''      std::ostream *out;
      int verbosity;
      bool enabled() const { return verbosity > 0; }
''')]),
 ('rep early', 'C07', [(R, '''        if (verbosity > 0) (*out) << x;
        return *this;
''', '''        if (verbosity <= 0) return *this;
        *out << x;
        return *this;
''')]),
 ('rep call', 'C07', [(R, '''{ return report_stream(out, verbosity - n + 1); }''', '''{
        int const v = verbosity + 1 - n;
        return {out, v};
      }''')]),
 ('rep manip', 'C07', [(R, '''        if (verbosity > 0) manip(*out);
''', '''        if (verbosity > 0) *out << manip;
''')]),
 ('sg move', 'C03', [(SG, '''active_(rhs.active_) { rhs.dismiss(); }''', '''active_(rhs.active_) { rhs.active_ = false; }''')]),
 ('sg exchange', 'C03', [(SG, '''active_(rhs.active_) { rhs.dismiss(); }''', '''active_(std::exchange(rhs.active_, false)) {}''')]),
 ('sg std swap', 'C03', [(SG, '''        using std::swap;
        swap(f_, rhs.f_);
        swap(active_, rhs.active_);
        return *this;
''', '''        std::swap(active_, rhs.active_);
        std::swap(f_, rhs.f_);
        return *this;
''')]),
 ('sg temp swap', 'C03', [(SG, '''        swap(active_, rhs.active_);
''', '''        bool const was_active = active_;
        active_ = rhs.active_;
        rhs.active_ = was_active;
''')]),
 ('sg dtor', 'C03', [(SG, '''        if (active_) f_();
''', '''        if (not active()) return;
        f_();
''')]),
 ('sg make', 'C03', [(SG, '''make_scope_guard(Fun f) { return {std::move(f)}; }''', '''make_scope_guard(Fun f) { return scope_guard<Fun>(std::move(f)); }''')]),
 ('st loop', 'C12', [(ST, '''      while (!feof(stream))
        if (fgets(buffer2, max_buffer, stream) != NULL) pipe_output.append(buffer2);
''', '''      while (feof(stream) == 0) {
        char *line = fgets(buffer2, max_buffer, stream);
        if (line != nullptr) pipe_output += buffer2;
      }
''')]),
 ('st skip', 'C12', [(ST, '''    while (std::getline(ss, to, '\\n')) {
      if (to.find(PYTHON_SENTINEL) != std::string::npos) break;
      r += to + '\\n';
    }
''', '''    while (std::getline(ss, to, '\\n') and to.find(PYTHON_SENTINEL) == std::string::npos) {
      r += to;
      r += '\\n';
    }
''')]),
 ('st skip2', 'C12', [(ST, '''    while (std::getline(ss, to, '\\n') and (to.find("triqs::exception::exception") == std::string::npos)) {}
''', '''    while (std::getline(ss, to)) {
      if (to.find("triqs::exception::exception") != std::string::npos) break;
    }
''')]),
 ('st early', 'C12', [(ST, '''    if (stream) {
      while (!feof(stream))
        if (fgets(buffer2, max_buffer, stream) != NULL) pipe_output.append(buffer2);
      pclose(stream);
    }
''', '''    if (stream != nullptr) {
      while (!feof(stream)) {
        if (!fgets(buffer2, max_buffer, stream)) continue;
        pipe_output.append(buffer2);
      }
      pclose(stream);
    }
''')]),
 ('timer helper', 'C06', [(T, '''      void stop() {
        total_time += clock_t::now() - start_time;
''', '''      clock_t::duration elapsed() const { return clock_t::now() - start_time; }
      void stop() {
        total_time += elapsed();
'''), (T, '''        if (is_running()) total_time_seconds += clock_t::now() - start_time;
''', '''        if (running) total_time_seconds += elapsed();
''')]),
 ('timer order', 'C06', [(T, '''        running    = true;
        start_time = clock_t::now();
''', '''        start_time = clock_t::now();
        running    = true;
''')]),
 ('timer conv', 'C06', [(T, '''        std::chrono::duration<double> total_time_seconds(total_time);
        if (is_running()) total_time_seconds += clock_t::now() - start_time;
        return total_time_seconds.count();
''', '''        std::chrono::duration<double> seconds = total_time;
        if (!running) return seconds.count();
        seconds += clock_t::now() - start_time;
        return seconds.count();
''')]),
 ('timer stop', 'C06', [(T, '''        total_time += clock_t::now() - start_time;
        running = false;
''', '''        running           = false;
        auto const end_time = clock_t::now();
        total_time        = total_time + (end_time - start_time);
''')]),
 ('ts alias', 'C09', [(TS, '''        ar &std::get<std::tuple_size<T>::value - 1 - pos>(t);
        tuple_serialize_impl<pos - 1>()(ar, t);
''', '''        constexpr int n = std::tuple_size<T>::value;
        ar &std::get<n - pos - 1>(t);
        tuple_serialize_impl<pos - 1> rest;
        rest(ar, t);
''')]),
 ('ts ref', 'C09', [(TS, '''        ar &std::get<std::tuple_size<T>::value - 1 - pos>(t);
        tuple''', '''        auto &x = std::get<std::tuple_size<T>::value - 1 - pos>(t);
        ar &x;
        tuple''')]),
 ('tn invert', 'C12', [(TN, '''      if (!status) {
        std::string res(demangled);
        boost::erase_all(res, ", boost::tuples::null_type");
        boost::erase_all(res, ", -1");
        boost::erase_all(res, ", void");
        fs << res;
        free(demangled);
      } else
        fs << name;
''', '''      if (status != 0)
        fs << name;
      else {
        std::string res(demangled);
        free(demangled);
        boost::erase_all(res, ", boost::tuples::null_type");
        boost::erase_all(res, ", -1");
        boost::erase_all(res, ", void");
        fs << res;
      }
''')]),
 ('tn loop', 'C12', [(TN, '''        boost::erase_all(res, ", boost::tuples::null_type");
        boost::erase_all(res, ", -1");
        boost::erase_all(res, ", void");
''', '''        for (const char *s : {", boost::tuples::null_type", ", -1", ", void"}) boost::erase_all(res, s);
''')]),
 ('tn return', 'C12', [(TN, '''        fs << res;
        free(demangled);
      } else
''', '''        free(demangled);
        return res;
      } else
''')]),
 ('tn nullptr', 'C12', [(TN, '''(name, NULL, NULL, &status)''', '''(name, nullptr, nullptr, &status)''')]),
 ('v loop', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
''', '''    bool first = true;
    for (auto const &i : fs) {
      if (!first) os << ",";
      first = false;
      os << i;
    }
''')]),
 ('v index loop', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
''', '''    for (size_t k = 0; k < fs.size(); ++k) {
      if (k > 0) os << ",";
      os << fs[k];
    }
''')]),
 ('v index loop2', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
''', '''    for (size_t k = 0; k < fs.size(); ++k) os << (k == 0 ? "" : ",") << fs[k];
''')]),
 ('v sep', 'C12', [(V, '''    int u = 0;
    for (auto const &i : fs) {
      if (u++) os << ",";
      os << i;
    }
''', '''    const char *sep = "";
    for (auto const &i : fs) {
      os << sep << i;
      sep = ",";
    }
''')]),
 ('v os', 'C12', [(V, '''      if (u++) os << ",";
      os << i;
''', '''      if (u != 0) os << ",";
      ++u;
      os << i;
''')]),
 ('rng ret', 'C02', [(MC, '''        return ((double)(randomMT()) / 0xFFFFFFFFU);
''', '''        double const r = static_cast<double>(randomMT());
        return r / 0xFFFFFFFFU;
''')]),
 ('rng temper', 'C02', [(M, '''          y = *next++;
          y ^= (y >> 11);
          y ^= (y << 7) & 0x9D2C5680U;
          y ^= (y << 15) & 0xEFC60000U;
          return (y ^ (y >> 18));
''', '''          y = *next;
          ++next;
          return temper(y);
'''), (M, '''          s1 ^= (s1 >> 11);
          s1 ^= (s1 << 7) & 0x9D2C5680U;
          s1 ^= (s1 << 15) & 0xEFC60000U;
          return (s1 ^ (s1 >> 18));
''', '''          return temper(s1);
'''), (M, '''        uint32 reloadMT(void) {''', '''        inline uint32 temper(uint32 y) {
          y ^= (y >> 11);
          y ^= (y << 7) & 0x9D2C5680U;
          y ^= (y << 15) & 0xEFC60000U;
          return y ^ (y >> 18);
        }
        uint32 reloadMT(void) {''')]),
 ('rng twist', 'C02', [(M, '''*p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);

          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''', '''*p0++ = twist(*pM++, s0, s1);

          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = twist(*pM++, s0, s1);
'''), (M, '''        uint32 reloadMT(void) {''', '''        inline uint32 twist(uint32 m, uint32 s0, uint32 s1) { return m ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U); }
        uint32 reloadMT(void) {''')]),
 ('rng body', 'C02', [(M, '''          for (pM = state, j = M; --j; s0 = s1, s1 = *p2++) *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
''', '''          for (pM = state, j = M; --j;) {
            *p0++ = *pM++ ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);
            s0    = s1;
            s1    = *p2++;
          }
''')]),
 ('rng seed', 'C02', [(M, '''          for (*s++ = x, j = N; --j; *s++ = (x *= 69069U) & 0xFFFFFFFFU)
            ;
''', '''          *s++ = x;
          for (j = 1; j < N; ++j) {
            x *= 69069U;
            *s++ = x & 0xFFFFFFFFU;
          }
''')]),
 ('rng seed idx', 'C02', [(M, '''          for (*s++ = x, j = N; --j; *s++ = (x *= 69069U) & 0xFFFFFFFFU)
            ;
''', '''          s[0] = x;
          for (j = 1; j < N; ++j) {
            x *= 69069U;
            s[j] = x & 0xFFFFFFFFU;
          }
''')]),
 ('rng left', 'C02', [(M, '''          if (--left < 0) return (reloadMT());
''', '''          left = left - 1;
          if (left < 0) { return reloadMT(); }
''')]),
 ('rng left2', 'C02', [(M, '''          left = N - 1, next = state + 1;
''', '''          next = state + 1;
          left = N - 1;
''')]),
 ('rng call', 'C02', [(M, '''{ return DBL_EPSILON + eval() * (1 - 2 * DBL_EPSILON); }''', '''{
          double const width = 1 - 2 * DBL_EPSILON;
          double const u = eval();
          return u * width + DBL_EPSILON;
        }''')]),
 ('aux init', 'C14', [(A, '''        impl_ = p;
        call_ = [p]() mutable { (*p)(); };''', '''        call_ = [p]() mutable { p->operator()(); };
        impl_ = p;''')]),
]
