F = 'c++/triqs/hilbert_space/space_partition.hpp'
CASES = [
 ('index helper', 'C11', [(F, '''          representative_to_index.insert(std::make_pair(subspaces.find_set(n), representative_to_index.size()));
''', '''          auto const rep = subspaces.find_set(n);
          if (representative_to_index.find(rep) == representative_to_index.end()) {
            idx_t const next = representative_to_index.size();
            representative_to_index[rep] = next;
          }
''')]),
 ('index helper2', 'C11', [(F, '''          representative_to_index.insert(std::make_pair(subspaces.find_set(n), representative_to_index.size()));
''', '''          representative_to_index.insert({subspaces.find_set(n), representative_to_index.size()});
''')]),
 ('index emplace', 'C11', [(F, '''          representative_to_index.insert(std::make_pair(subspaces.find_set(n), representative_to_index.size()));
''', '''          representative_to_index.emplace(subspaces.find_set(n), representative_to_index.size());
''')]),
 ('mapping condition', 'C11', [(F, '''            if ((!diagonal_only) || i_subspace == f_subspace)
              mapping.insert(std::make_pair(representative_to_index[i_subspace], representative_to_index[f_subspace]));
''', '''            if (diagonal_only && i_subspace != f_subspace) return;
            mapping.insert({representative_to_index[i_subspace], representative_to_index[f_subspace]});
''')]),
 ('link helper', 'C11', [(F, '''            auto i_subspace = subspaces.find_set(i);
            auto f_subspace = subspaces.find_set(f);
            if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
''', '''            _join(i, f);
'''), (F, '''      private:
      void _update_index() {''', '''      private:
      void _join(idx_t i, idx_t f) {
        auto i_subspace = subspaces.find_set(i);
        auto f_subspace = subspaces.find_set(f);
        if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
      }
      void _update_index() {''')]),
 ('zigzag split', 'C11', [(F, '''              if (upwards)
                subspaces.link(f_subspace, upper_subspace);
              else
                subspaces.link(f_subspace, lower_subspace);
''', '''              subspaces.link(f_subspace, upwards ? upper_subspace : lower_subspace);
''')]),
 ('zigzag ref', 'C11', [(F, '''            std::multimap<idx_t, idx_t>::iterator it;
            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {

              auto f_subspace = it->second;
              (upwards ? Cd_connections : C_connections).erase(it);
''', '''            auto &conn = upwards ? Cd_connections : C_connections;
            for (auto it = conn.find(i_subspace); it != conn.end(); it = conn.find(i_subspace)) {
              auto f_subspace = it->second;
              conn.erase(it);
''')]),
 ('zigzag break', 'C11', [(F, '''            std::multimap<idx_t, idx_t>::iterator it;
            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {
''', '''            auto &conn = upwards ? Cd_connections : C_connections;
            while (true) {
              auto it = conn.find(i_subspace);
              if (it == conn.end()) break;
''')]),
 ('lower pair', 'C11', [(F, '''          idx_t lower_subspace, upper_subspace;
          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
''', '''          idx_t lower_subspace = Cd_connections.begin()->first;
          idx_t upper_subspace = Cd_connections.begin()->second;
''')]),
 ('lower bind', 'C11', [(F, '''          idx_t lower_subspace, upper_subspace;
          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
''', '''          auto const first_connection = *Cd_connections.begin();
          idx_t const lower_subspace = first_connection.first;
          idx_t const upper_subspace = first_connection.second;
''')]),
 ('size in loop', 'C11', [(F, '''        auto size = tmp_state.size();

        // Iteration over all initial basis states
        for (idx_t i = 0; i < size; ++i) {
          tmp_state(i)        = amplitude_t(1);
          state_t final_state = H(tmp_state);
''', '''        for (idx_t i = 0; i != tmp_state.size(); i++) {
          tmp_state(i)        = 1;
          state_t final_state = H(tmp_state);
''')]),
 ('lambda outside', 'C11', [(F, '''          tmp_state(i)    = amplitude_t(1);
          auto i_subspace = subspaces.find_set(i);

          auto fill''', '''          auto i_subspace = subspaces.find_set(i);
          tmp_state(i)    = amplitude_t(1);

          auto fill''')]),
 ('foreach while', 'C11', [(F, '''        for (idx_t n = 0; n < SP.tmp_state.size(); ++n) L(n, SP.lookup_basis_state(n));
''', '''        idx_t n = 0;
        while (n < SP.tmp_state.size()) {
          auto index = SP.lookup_basis_state(n);
          L(n, index);
          ++n;
        }
''')]),
 ('lookup', 'C11', [(F, '''{ return representative_to_index[subspaces.find_set(basis_state)]; }''', '''{
        auto const representative = subspaces.find_set(basis_state);
        return representative_to_index[representative];
      }''')]),
 ('initial state', 'C11', [(F, '''          state_t initial_state = tmp_state;
          initial_state(i)      = amplitude_t(1);
          auto i_subspace       = subspaces.find_set(i);

          state_t final_state = op(initial_state);
''', '''          auto i_subspace       = subspaces.find_set(i);
          state_t initial_state(tmp_state);
          initial_state(i)      = amplitude_t(1);
          auto final_state = op(initial_state);
''')]),
]
