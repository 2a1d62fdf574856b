"""Applies behaviour-preserving edits (by hand, three sets) to a scratch copy of the headers: the checks have to stay quiet on it.
usage: refactor.py SET DIR"""
import sys, os, shutil, subprocess
S = {}
S['a'] = {
'BitVector.hpp': [
 ("    size_type _size() const {return actual_size_;}", "    size_type _size() const {const size_type n = actual_size_; return n;}\n    bool _in(size_t i) const {return i < _size();}"),
 ("                auto seg = begin.seg_ + 1;\n                while (seg < back.seg_) {\n                    *(seg++) = mask_fill;\n                }", "                std::fill(begin.seg_ + 1, back.seg_, mask_fill);"),
 ("                auto seg = begin.seg_ + 1;\n                while (seg < back.seg_) {\n                    *(seg++) = _word_type(0);\n                }", "                for (auto seg = begin.seg_ + 1; seg != back.seg_; ++seg)\n                    *seg = 0;"),
 ("        if (new_size < actual_size_) {\n            storage_.resize(get_word_size(new_size));\n            actual_size_ = new_size;\n        } else if (new_size > actual_size_) {\n            auto prev_size = actual_size_;\n            storage_.resize(get_word_size(new_size));\n            _fill(_make_iter(prev_size), _make_iter(new_size), bit);\n            actual_size_ = new_size;\n        }",
  "        if (new_size == actual_size_)\n            return;\n        const auto prev_size = actual_size_;\n        storage_.resize(get_word_size(new_size));\n        actual_size_ = new_size;\n        if (prev_size < new_size)\n            _fill(_make_iter(prev_size), _make_iter(new_size), bit);"),
 ("        if (index >= size())\n            throw", "        if (!_in(index))\n            throw"),
],
'CHT.hpp': [
 ("        if (!IsShifted(i))\n            return i;\n        size_t t = 0;\n        do {\n            i = pred(i);\n            if (IsOccupied(i))\n                ++t;\n        } while (IsShifted(i));\n        while (t) {\n            i = succ(i);\n            if (!IsContinuation(i))\n                --t;\n        }\n        return i;",
  "        size_t t = 0;\n        while (IsShifted(i)) {\n            i = pred(i);\n            t += IsOccupied(i) ? 1 : 0;\n        }\n        for (; t > 0;) {\n            i = succ(i);\n            if (!IsContinuation(i))\n                t--;\n        }\n        return i;"),
 ("        i++;\n        [[unlikely]] if (i == bucket())\n            i = 0;\n        return i;", "        return i + 1 < bucket() ? i + 1 : 0;"),
 ("        [[unlikely]] if (i == 0)\n            return bucket()-1;\n        else\n            return i-1;", "        return (i == 0 ? bucket() : i) - 1;"),
 ("        if (!IsOccupied(i))\n            return {false, 0};\n        i = ToClusterHead(i);\n        do {\n            if (Quotient(i) == quo) {\n                if (IsDeleted(i))\n                    return {false, 0};\n                return {true, values_[i]};\n            }\n            i = succ(i);\n        } while (IsContinuation(i));\n        return {false, 0};",
  "        auto [found, at] = Find(i, quo);\n        if (!found or IsDeleted(at))\n            return {false, 0};\n        return {true, values_[at]};"),
 ("    bool IsFilled() const {", "    std::pair<bool, size_t> Find(size_t i, uint64_t quo) const {\n        if (!IsOccupied(i))\n            return {false, 0};\n        i = ToClusterHead(i);\n        for (;;) {\n            if (Quotient(i) == quo)\n                return {true, i};\n            i = succ(i);\n            if (!IsContinuation(i))\n                return {false, i};\n        }\n    }\n\n    bool IsFilled() const {"),
 ("        if (!IsOccupied(initial_i))\n            return;\n        auto i = ToClusterHead(initial_i);\n        do {\n            if (Quotient(i) == quo) {\n                if (!IsDeleted(i)) {\n                    arr_[i] = arr_[i] | kDeletedMask;\n                    size_--;\n                }\n                return;\n            }\n            i = succ(i);\n        } while (IsContinuation(i));",
  "        auto [found, i] = Find(initial_i, quo);\n        if (found and !IsDeleted(i)) {\n            arr_[i] = arr_[i] | kDeletedMask;\n            size_--;\n        }"),
 ("        *this = next;", "        *this = std::move(next);"),
],
'CDRWArray.hpp': [
 ("        auto w = widthes_[i];\n        if (w == 0)\n            return 0;\n        else {\n            auto [s, v] = sat_table_[w-1].get(i);\n            assert(s);\n            return v;\n        }", "        const uint64_t w = widthes_[i];\n        return w == 0 ? 0 : sat_table_[w-1].get(i).second;"),
 ("        if (new_size > cap_) {\n            _allocate(std::max(new_size, cap_*2));\n        }", "        reserve(new_size);"),
 ("        for (; size_ < new_size; size_++)\n            set(size_, 0);\n        size_ = new_size;", "        for (size_t i = size_; i < new_size; i++)\n            set(i, 0);\n        size_ = new_size;"),
 ("        size_++;\n        set(size()-1, value);", "        set(size_++, value);"),
],
'FitVector.hpp': [
 ("        for (size_t i = prev_size; i < new_size; i++)\n            operator[](i) = value;", "        for (size_t i = new_size; i > prev_size; i--)\n            operator[](i - 1) = value;"),
 ("        resize(size() + 1);\n        back() = value;", "        const auto i = size();\n        resize(i + 1);\n        operator[](i) = value;"),
 ("        for (auto x : vector)\n            push_back(static_cast<value_type>(x));", "        resize(vector.size());\n        for (size_t i = 0; i < vector.size(); i++)\n            operator[](i) = static_cast<value_type>(vector[i]);"),
],
'DacVector.hpp': [
 ("    value_type value = layers_[0][index];\n    for (size_t depth = 1, shift_bits = layers_unit_bits_[depth - 1], i = index;\n         depth < num_layers();\n         depth++, shift_bits += layers_unit_bits_[depth - 1])\n    {\n        auto& path = paths_[depth - 1];\n        if (not path[i])\n            break;\n        i = path.rank(i);\n        value_type unit = layers_[depth][i];\n        value |= unit << shift_bits;\n    }\n    return value;",
  "    value_type value = layers_[0][index];\n    size_t shift = layers_unit_bits_[0];\n    for (size_t depth = 1; depth < num_layers() and paths_[depth - 1][index]; depth++) {\n        index = paths_[depth - 1].rank(index);\n        value |= value_type(layers_[depth][index]) << shift;\n        shift += layers_unit_bits_[depth];\n    }\n    return value;"),
 ("        for (; depth < num_layers() - 1; depth++) {\n            if (not paths_[depth][index])\n                break;\n            index = paths_[depth].rank(index);\n        }\n        return depth;", "        while (depth + 1 < num_layers() and paths_[depth][index])\n            index = paths_[depth++].rank(index);\n        return depth;"),
],
'Heap.hpp': [
 ("        if (is_leaf(id))\n            return;\n        auto l = left(id);\n        auto min_i = l;\n        auto r = right(id);\n        if (r <= size()) {\n            if (!Compare(value(l), value(r))) {\n                min_i = r;\n            }\n        }\n        if (!Compare(value(id), value(min_i))) {\n            std::swap(base_[id - 1], base_[min_i - 1]);\n            Heapify(min_i);\n        }",
  "        while (!is_leaf(id)) {\n            auto child = left(id);\n            if (child < size() && Compare(value(child + 1), value(child)))\n                child++;\n            if (!Compare(value(child), value(id)))\n                return;\n            std::swap(base_[id - 1], base_[child - 1]);\n            id = child;\n        }"),
 ("        std::swap(base_.front(), base_.back());\n        base_.resize(base_.size() - 1);\n        Heapify(root());", "        base_.front() = base_.back();\n        base_.pop_back();\n        Heapify(root());"),
],
'sort.hpp': [
 ("        while (size() > 1) {\n            std::swap(*begin_, *(end_ - 1));\n            --end_;\n            Heapify(1);\n        }", "        for (; size() > 1; Heapify(1)) {\n            --end_;\n            std::swap(*begin_, *end_);\n        }"),
],
'SuccinctBitVector.hpp': [
 ("    while (left + 1 < right) {\n        const auto center = (left + right) / 2;\n        if (i < basic_block_[center * 2]) {\n            right = center;\n        } else {\n            left = center;\n        }\n    }", "    while (left + 1 < right && basic_block_[(left + 1) * 2] <= i)\n        left++;"),
 ("    return (basic_block_[block_index] +\n            ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +\n            (index%64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64)));", "    size_t r = basic_block_[block_index];\n    const auto small = 63-9*((index/64)%8);\n    r += (basic_block_[block_index+1] >> small) % 512;\n    if (const auto rest = index % 64; rest > 0)\n        r += bit_util::cnt(bits_.data()[index/64], rest);\n    return r;"),
],
'InitializableArray.hpp': [
 ("        return f < t_.size() and t_[f] == index;", "        if (f >= t_.size())\n            return false;\n        return t_[f] == index;"),
 ("            _break_chain(b_-1);\n        }\n        _init_block(k);\n        _break_chain(k);\n        return k;", "            _break_chain(b_-1);\n        }\n        _init_block(k);\n        return k;"),
 ("        if (i < 2*b_) { // Unwritten Chained Area\n            return k != kNoneBlock ? init_v_ : a_[i];\n        } else { // Written Chained Area\n            if (k != kNoneBlock) {\n                return i%2==0 ? a_[a_[i]+1] : a_[i];\n            } else {\n                return init_v_;\n            }\n        }", "        const bool chained = k != kNoneBlock;\n        if (chained == (b < b_))\n            return init_v_;\n        if (b < b_)\n            return a_[i];\n        return i%2 ? a_[i] : a_[2*k+1];"),
],
'WaveletTree.hpp': [
 ("            auto& cbv = bv_list_[id - 1];\n            auto bit = cbv[idx];\n            idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);\n            id = (id << 1) | bit;", "            auto& cbv = bv_list_[id - 1];\n            const bool bit = cbv[idx];\n            const auto ones = cbv.rank(idx);\n            idx = bit ? ones : idx - ones;\n            id = id * 2 + bit;"),
 ("        uint8_t value = 0;\n        auto id = 1;\n        size_t depth = 0;\n        size_t idx = index;\n        for (; depth < height_ - 1; depth++) {\n            auto& cbv = bv_list_[id - 1];\n            auto bit = cbv[idx];\n            value |= bit << (height_ - 1 - depth);\n            idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);\n            id = (id << 1) | bit;\n        }\n        value |= bv_list_[id - 1][idx] << (height_ - 1 - depth);\n        \n        return value;", "        return AccessAndRank(index).first;"),
 ("            auto bit = (c >> (height_ - 1 - depth)) & 1;", "            if (idx == 0)\n                return 0;\n            auto bit = (c >> (height_ - 1 - depth)) & 1;"),
],
'string_util/FactorOracle.hpp': [
 ("            auto next_state = Base::next(b ^ c);\n            if (next_state <= state or Base::check(next_state) != c) {\n                return false;\n            }\n            state = next_state;\n        }\n        return true;", "            const size_t to = Base::next(b ^ c);\n            if (!(to > state and Base::check(to) == c))\n                return false;\n            state = to;\n        }\n        return true;"),
 ("        for (; exp.pos_ < exp.size(); exp.pos_++) {\n            if (not image(state, exp.c()))\n                return false;\n        }\n        return true;", "        while (exp.pos_ < exp.size() and image(state, exp.c()))\n            exp.pos_++;\n        return exp.pos_ == exp.size();"),
 ("        for (size_t i = 0; i < next_.size(); i++) {\n            if (not used_trans_[i])\n                next_[i] = 0;\n        }", "        size_t i = 0;\n        for (auto& n : next_) {\n            n = used_trans_[i] ? n : 0;\n            i++;\n        }"),
],
'string_util/PatternMatching.hpp': [
 ("    for (size_t i = 0; i <= text.size() - kSize; i++) {\n        size_t pos = 0;\n        while (pos < kSize and key_[pos] == text[i + pos])\n            pos++;\n        if (pos == kSize) // match\n            matchies.push_back(i);\n    }", "    for (size_t i = 0; i + kSize <= text.size(); i++)\n        if (text.substr(i, kSize) == key_)\n            matchies.push_back(i);"),
 ("        if (pos == difference_type(key_.size())) {\n            matchies.push_back(i + 1 - key_.size());\n            pos = next_[pos];\n        }", "        if (pos != difference_type(key_.size()))\n            continue;\n        matchies.push_back(i + 1 - pos);\n        pos = next_[pos];"),
 ("        while (k >= 0 and key_[k] == text[pos]) {\n            pos--; k--;\n        }\n        if (k == -1) // match\n            matchies.push_back(pos + 1);", "        for (; k >= 0 and key_[k] == text[pos]; pos--)\n            k--;\n        if (k < 0)\n            matchies.push_back(i - kWindowSize + 1);"),
 ("            auto lms = min_shift[l.first], rms = min_shift[r.first];\n            return lms != rms ? lms < rms : l.first < r.first;", "            return std::make_pair(min_shift[l.first], l.first) < std::make_pair(min_shift[r.first], r.first);"),
 ("const auto prefix_size = pos > critpos ? 0", "const auto prefix_size = pos >= critpos ? 0"),
],
'string_util/Samc.hpp': [
 ("      auto node_pair = node_queue.front(); node_queue.pop();\n      auto index = node_pair.first;\n      auto node = node_pair.second;", "      auto [at, node] = std::move(node_queue.front()); node_queue.pop();\n      const auto index = at;"),
 ("  for (auto i_c : storage_map)\n    storage_[i_c.first] = i_c.second;", "  for (const auto& [i, c] : storage_map)\n    storage_[i] = c;"),
 ("  std::string text;\n  size_t node = _base::leaf(value);", "  std::string text;\n  auto node = _base::leaf(value);"),
 ("  return std::string(text.rbegin(), text.rend()-1);", "  text.erase(0, 1);\n  std::reverse(text.begin(), text.end());\n  return text;"),
],
'string_util/SuffixArray.hpp': [
 ("    auto matches = lcp;\n    li += lcp;\n    ri += lcp;\n    while (std::max(li, ri) < str_.size() && str_[li] == str_[ri]) {\n        matches++;\n        li++;\n        ri++;\n    }\n    return matches;", "    for (const auto limit = str_.size() - std::max(li, ri); lcp < limit && str_[li + lcp] == str_[ri + lcp]; lcp++) {}\n    return lcp;"),
 ("    vector<bool> slTypes(str.size());\n    slTypes[slTypes.size() - 1] = true;", "    vector<bool> slTypes(str.size(), false);\n    slTypes.back() = true;"),
 ("        maxL = std::max(l, maxL);", "        if (maxL < l) maxL = l;"),
],
'string_util/graph_util.hpp': [
 ("        for (uint8_t c : key) {\n            auto& n = container_[node];\n            auto target = n.target(c);\n            if (target != kRootIndex) {\n                node = target;\n            } else {\n                n.add(c, container_.size());\n                node = container_.size();\n                container_.emplace_back();\n            }\n        }\n        // Add leaf label as '\\0'.\n        auto& n = container_[node];\n        auto target = n.target(kLeafChar);\n        if (target != kRootIndex) {\n            node = target;\n        } else {\n            n.add(kLeafChar, container_.size());\n            node = container_.size();\n            container_.emplace_back();\n        }\n", "        for (uint8_t c : key)\n            node = _step(node, c);\n        node = _step(node, kLeafChar);\n"),
 ("private:\n    size_t _traverse", "private:\n    size_t _step(size_t node, uint8_t c) {\n        if (auto target = container_[node].target(c); target != kRootIndex)\n            return target;\n        const size_t fresh = container_.size();\n        container_[node].add(c, fresh);\n        container_.emplace_back();\n        return fresh;\n    }\n    \n    size_t _traverse"),
],
}
S['b'] = {
'BitVector.hpp': [
 ("    explicit _BitVector(size_t size, bool initial_bit) : actual_size_(size), storage_(get_word_size(size)) {\n        _fill(_make_iter(0), _make_iter(size), initial_bit);\n    }", "    explicit _BitVector(size_t size, bool initial_bit) : _BitVector(size) {\n        if (initial_bit)\n            _fill(_make_iter(0), _make_iter(size), true);\n    }"),
 ("        if (end <= begin)\n            return;\n        const _word_type mask_fill = _word_type(-1);", "        if (!(begin < end))\n            return;\n        constexpr _word_type mask_fill = ~_word_type(0);"),
 ("        resize(size() + 1, bit);", "        _base::_resize(size() + 1, false);\n        back() = bit;"),
 ("        storage_.resize(get_word_size(new_size));\n        actual_size_ = new_size;\n        _fill(_make_iter(0), _make_iter(new_size), bit);", "        storage_.assign(get_word_size(new_size), bit ? ~_word_type(0) : _word_type(0));\n        actual_size_ = new_size;"),
],
'CHT.hpp': [
 ("        if (!IsNull(i)) {\n            auto j = i;\n            do {\n                j = succ(j);\n            } while (!IsNull(j));\n            do {\n                auto pj = pred(j);\n                arr_[j] = (\n                    (arr_[j] & kOccupiedMask) |\n                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |\n                    kShiftedMask\n                );\n                values_[j] = values_[pj];\n                j = pj;\n            } while (i != j);\n            assert(j == i);\n        }", "        size_t free = i;\n        while (!IsNull(free))\n            free = succ(free);\n        while (free != i) {\n            const auto pj = pred(free);\n            const uint64_t moved = arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask);\n            const uint64_t keep = arr_[free] & kOccupiedMask;\n            arr_[free] = keep | moved | kShiftedMask;\n            values_[free] = values_[pj];\n            free = pj;\n        }"),
 ("            std::queue<uint64_t> qs;", "            std::queue<uint64_t, std::vector<uint64_t>> unused_; (void)sizeof(unused_);\n            std::queue<uint64_t> qs;") if 0 else ("        size_t i = 0;\n        size_t cnt = 0;\n        while (cnt < used_) {", "        size_t i = 0;\n        for (size_t cnt = 0; cnt < used_;) {"),
 ("        if (size() == min_size_) {\n            reserve(size()*2);\n        }\n\n        auto initial_h", "        if (size() == min_size_)\n            reserve(2*min_size_);\n\n        const uint64_t initial_h"),
],
'CDRWArray.hpp': [
 ("            sat_table_[i] = CHT<0>(size_bits);\n            sat_table_[i].set_value_width(i+1);", "            CHT<0> table(size_bits);\n            table.set_value_width(i+1);\n            sat_table_[i] = std::move(table);"),
 ("        widthes_[i] = value_bits;\n        if (value_bits > 0)\n            sat_table_[value_bits-1].set(i, value);", "        if (value_bits != 0)\n            sat_table_[value_bits-1].set(i, value);\n        widthes_[i] = value_bits;"),
 ("        arr_ = next;\n        cap_ = new_cap;", "        std::swap(arr_, next);\n        cap_ = new_cap;"),
 ("        for (size_t i = 0; i < size(); i++)\n            next.set(i, get(i));", "        for (size_t i = size(); i-- > 0;)\n            next.set(i, get(i));"),
],
'FitVector.hpp': [
 ("        if (size > size_ and end_bit % kBitsPerWord != 0) // drop what a previous shrink left behind\n            storage_[end_bit / kBitsPerWord] &= bit_util::WidthMask(end_bit % kBitsPerWord);\n        storage_.resize(num_words_(size));\n        size_ = size;", "        const auto last = end_bit / kBitsPerWord, used = end_bit % kBitsPerWord;\n        if (used > 0 && size_ < size)\n            storage_[last] = storage_[last] & ((word_type(1) << used) - 1);\n        size_ = size;\n        storage_.resize(num_words_(size_));"),
 ("    explicit FitVector(size_t unit_len, size_t size) : FitVector(unit_len) {\n        resize(size);\n    }", "    explicit FitVector(size_t unit_len, size_t size) : bits_per_element_(unit_len), mask_(bit_util::WidthMask(unit_len)), size_(size), storage_(num_words_(size)) {}"),
 ("return size == 0 ? 0 : bits_per_element_ == 0 ? 1 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1;", "if (size == 0) return 0;\n        const auto words = (size * bits_per_element_ + kBitsPerWord - 1) / kBitsPerWord;\n        return words > 0 ? words : 1;"),
],
'BitsReference.hpp': [
 ("        if (bits_per_element_ + offset_ <= kBitsPerWord) {\n            return (*seg_ >> offset_) & mask_;\n        } else {\n            return ((*seg_ >> offset_) | (*(seg_+1) << (kBitsPerWord - offset_))) & mask_;\n        }", "        word_type x = seg_[0] >> offset_;\n        if (bits_per_element_ + offset_ > kBitsPerWord)\n            x |= seg_[1] << (kBitsPerWord - offset_);\n        return x & mask_;"),
 ("        *seg_ = (*seg_ & ~(mask_ << offset_)) | (value << offset_);", "        auto& low = *seg_;\n        low &= ~(mask_ << offset_);\n        low |= value << offset_;"),
],
'DacVector.hpp': [
 ("    layers_.reserve(num_layers);\n    for (auto unit : layers_unit_bits_)\n        layers_.emplace_back(unit);", "    for (size_t i = 0; i < num_layers; i++)\n        layers_.push_back(FitVector(layers_unit_bits_[i]));"),
 ("        layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));\n        x = drop(x, layers_unit_bits_[0]);\n        for (size_t depth = 1; depth < num_layers; depth++) {\n            bool exist = x > 0;\n            paths_src_[depth - 1].push_back(exist);\n            if (not exist)\n                break;\n            auto unit_bits = layers_unit_bits_[depth];\n            layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));\n            x = drop(x, unit_bits);\n        }", "        size_t depth = 0;\n        do {\n            const auto unit_bits = layers_unit_bits_[depth];\n            layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));\n            x = drop(x, unit_bits);\n            if (++depth < num_layers)\n                paths_src_[depth - 1].push_back(x != 0);\n        } while (depth < num_layers and x != 0);"),
],
'Heap.hpp': [
 ("        for (auto id = size(); id > root() and Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))\n            std::swap(base_[id - 1], base_[parent(id) - 1]);", "        auto id = size();\n        while (id > root()) {\n            const auto up = parent(id);\n            if (!Compare(value, base_[up - 1]))\n                break;\n            base_[id - 1] = base_[up - 1];\n            id = up;\n        }\n        base_[id - 1] = value;"),
 ("        while (begin < end) {\n            base_.push_back(*begin);\n            ++begin;\n        }", "        base_.assign(begin, end);"),
],
'sort.hpp': [
 ("        auto l = left(id);\n        auto min_i = l;\n        auto r = right(id);\n        if (r <= size()) {\n            if (compare_(*itr(l), *itr(r))) {\n                min_i = r;\n            }\n        }", "        const auto l = left(id), r = right(id);\n        const auto min_i = r <= size() && compare_(*itr(l), *itr(r)) ? r : l;"),
],
'SuccinctBitVector.hpp': [
 ("    const auto* data = bits_.data();\n    size_t sum = bit_util::popcnt(*data);\n    uint64_t sum_word = 0;\n    basic_block_[0] = basic_block_[1] = 0;\n    size_t i = 0;\n    for (i = 1; i < bits_.size() / 64; i++) {\n        if (i % 8 == 0) {\n            size_t j = i/8*2;\n            basic_block_[j - 1] = sum_word;\n            basic_block_[j] = basic_block_[j - 2] + sum;\n            sum_word = sum = 0;\n        } else {\n            sum_word |= sum << (63 - 9*(i%8));\n        }\n        sum += bit_util::popcnt(*(++data));\n    }\n    if (i % 8 != 0) {\n        size_t j = i/8*2;\n        sum_word |= sum << (63 - 9*(i%8));\n        basic_block_[j + 1] = sum_word;\n    } else {\n        size_t j = i/8*2;\n        basic_block_[j - 1] = sum_word;\n        basic_block_[j] = basic_block_[j - 2] + sum;\n        basic_block_[j + 1] = 0;\n    }",
  "    const auto* data = bits_.data();\n    const size_t words = (bits_.size() + 63) / 64;\n    size_t total = 0;\n    for (size_t b = 0; b < basic_block_size; b++) {\n        basic_block_[b * 2] = total;\n        uint64_t tips = 0;\n        size_t inner = 0;\n        for (size_t k = 0; k < 8; k++) {\n            if (k > 0)\n                tips |= uint64_t(inner) << (63 - 9 * k);\n            if (b * 8 + k < bits_.size() / 64 || (b * 8 + k < words && bits_.size() < 64))\n                inner += bit_util::popcnt(data[b * 8 + k]);\n        }\n        basic_block_[b * 2 + 1] = tips;\n        total += inner;\n    }"),
],
'InitializableArray.hpp': [
 ("        if (not _is_chained(index)) {\n            fv_[index].first = t_.size();\n            t_.push_back(index);\n        }\n        fv_[index].second = val;", "        auto& [first, second] = fv_[index];\n        if (first >= t_.size() || t_[first] != index) {\n            first = t_.size();\n            t_.emplace_back(index);\n        }\n        second = val;"),
 ("        if (bki < kActualSize and bki % 2 == 0 and _to(bki) == 2 * b and\n            ((b < b_ and b_ <= bki / 2) or (bki / 2 < b_ and b_ <= b)))\n            return bki/2;\n        else\n            return kNoneBlock;", "        if (bki >= kActualSize or bki % 2 != 0)\n            return kNoneBlock;\n        if (_to(bki) != 2 * b or (b < b_) == (bki / 2 < b_))\n            return kNoneBlock;\n        return bki/2;"),
],
'WaveletTree.hpp': [
 ("        for (auto i = 0; i < vec.size(); i++) {\n            auto id = 1;\n            auto value = vec[i];\n            for (size_t depth = 0; depth < height_; depth++) {\n                auto bit = (value >> (height_ - 1 - depth)) & 1U;\n                bv_list_src_[id - 1].push_back(bit);\n                id = (id << 1) | bit;\n            }\n        }", "        for (const size_t value : vec) {\n            size_t id = 1;\n            for (auto depth = height_; depth-- > 0;) {\n                const bool bit = value >> depth & 1;\n                bv_list_src_[id - 1].push_back(bit);\n                id = 2 * id + bit;\n            }\n        }"),
 ("        bv_list_.resize(bv_list_src_.size());\n        for (size_t i = 0; i < bv_list_src_.size(); i++)\n            bv_list_[i] = bv_type(std::move(bv_list_src_[i]));", "        bv_list_.reserve(bv_list_src_.size());\n        for (auto& src : bv_list_src_)\n            bv_list_.emplace_back(std::move(src));"),
],
'string_util/FactorOracle.hpp': [
 ("            if (not used_state_[b]) {\n                bool skip = false;\n                for (auto t : transes) {\n                    if (used_trans_[b ^ check(t)]) {\n                        skip = true;\n                        break;\n                    }\n                }\n                if (not skip)\n                    return b;\n            }", "            if (not used_state_[b] and std::none_of(transes.begin(), transes.end(), [&](id_type t) { return bool(used_trans_[b ^ check(t)]); }))\n                return b;"),
 ("        if (check(state + 1) == check(n)) {\n            return state + 1;\n        }\n        auto b = base(state);", "        const auto c = check(n);\n        if (check(state + 1) == c)\n            return state + 1;\n        const auto b = base(state);"),
],
'string_util/PatternMatching.hpp': [
 ("        size_t n = -1;\n        for (size_t i = 0; i < key.size(); i++) {\n            while (n != size_t(-1) and key[i] != key[n])\n                n = next_[n];", "        difference_type n = -1;\n        for (size_t i = 0; i < key.size(); i++) {\n            while (n >= 0 and key[i] != key[n])\n                n = next_[n];"),
 ("        if (pos == i - kWindowSize) { // match\n            matchies.push_back(i + 1 - kWindowSize);\n            i++;\n        } else {\n            i = pos + kWindowSize;\n        }", "        const bool match = pos == i - kWindowSize;\n        if (match)\n            matchies.push_back(pos + 1);\n        i = match ? i + 1 : pos + kWindowSize;"),
 ("        while (pos < kKeySize and pat->second == text[i + pat->first]) {\n            pos++; ++pat;\n        }", "        for (; pos < kKeySize and pat->second == text[i + pat->first]; ++pat)\n            pos++;"),
],
'string_util/Samc.hpp': [
 ("    auto target = node + _base::code(depth, c);\n    if (not in_range(target, depth+1) or\n        _base::check(target) != c) {\n      return kSearchError;\n    }\n    node = target;", "    node += _base::code(depth, c);\n    const bool ok = in_range(node, depth+1) and _base::check(node) == c;\n    if (!ok)\n      return kSearchError;"),
 ("      BitVector leaves_src(_base::storage_.size());\n      for (size_t i = 1; i < _base::storage_.size(); i++) {\n        if (_base::check(i) == kLeafChar)\n          leaves_src[i] = true;\n      }", "      const auto n = _base::storage_.size();\n      BitVector leaves_src(n, false);\n      for (size_t i = n; i-- > 1;)\n        leaves_src[i] = _base::storage_[i] == kLeafChar;"),
 ("  for (size_t depth = 0; ; ++depth) {\n    if (node_queue.empty())\n      break;", "  for (size_t depth = 0; !node_queue.empty(); ++depth) {"),
],
'string_util/SuffixArray.hpp': [
 ("    sArr.erase(sArr.begin());\n    s_arr_ = FitVector(sArr);", "    s_arr_ = FitVector(vector<size_t>(sArr.begin() + 1, sArr.end()));"),
 ("    saisS.resize(str.size());\n    for (size_t i = 0; i < str.size(); i++)\n        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the end\n    saisS.push_back(0);", "    saisS.reserve(str.size() + 1);\n    for (unsigned char c : str)\n        saisS.push_back(size_t(c) + 1);\n    saisS.emplace_back(0);"),
],
'string_util/graph_util.hpp': [
 ("        auto it = edges_.find(c);\n        if (it == edges_.end())\n            return kRootIndex;\n        return it->second;", "        const auto it = edges_.lower_bound(c);\n        return it != edges_.end() && it->first == c ? it->second : kRootIndex;"),
 ("        if (terminal.item_index() == kItemEmpty) {\n            // Insert new item.\n            storage_.push_back(item);\n            terminal.set_item_index(storage_.size()-1);\n        } else {\n            // Update item.\n            storage_[terminal.item_index()] = item;\n        }\n        return &storage_[terminal.item_index()];", "        if (terminal.terminal()) {\n            auto& old = storage_[terminal.item_index()];\n            old = std::move(item);\n            return &old;\n        }\n        terminal.set_item_index(storage_.size());\n        storage_.push_back(std::move(item));\n        return &storage_.back();"),
],
}
if __name__ == '__main__':
    st, d = sys.argv[1], sys.argv[2]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.run(['cp', '-a', '/repo/.', d])
    for f, rs in S[st].items():
        p = d + '/include/sim_ds/' + f; s = open(p, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
        for a, b in rs:
            if a not in s: print('NOT FOUND', f, a[:80]); continue
            s = s.replace(a, b)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
