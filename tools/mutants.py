# Hand-written small changes, one per entry: (name, [property ids expected to notice], file, old text, new text). Run with tools/mutrun.py.
I = "eisvogel/core/impl/"
D = I + "DistributedNDVecArray.hxx"; G = I + "GreensFunction.hxx"; N = I + "NDVecArray.hxx"; ST = I + "NDVecArrayStreamer.hxx"; SE = I + "NDVecArraySerialization.hh"
T = I + "RStarTree.hxx"; C = I + "Cache.hxx"; A = I + "AnalyticGreensFunctionCalculator.hxx"; K = I + "Interpolation.hxx"; IT = I + "IteratorUtils.hh"
M = [
 # chunk cache / distributed array
 ("d-registernocache", ["S01"], D, "CacheStatus::Serialize());\n\n  // Immediately synchronize to disk if we're asked to operate without cache\n  if(m_cache_size == 0) {", "CacheStatus::Serialize());\n\n  // Immediately synchronize to disk if we're asked to operate without cache\n  if(m_cache_size > 100000) {"),
 ("d-retrieve-nosync", ["S01"], D, "      sync_cache_element_with_disk(cached_chunk);\n    }", "      if(m_cache.has_free_slot()) { sync_cache_element_with_disk(cached_chunk); }\n    }"),
 ("d-append-axis-check", ["S01"], D, "(std::get<CacheStatus::Append>(status).axis == axis)));", "true));"),
 ("d-append-inmem-any", ["S01"], D, "  bool concatenate_in_memory = (axis == 0) &&\n    (std::holds_alternative<CacheStatus::Serialize>(status) ||", "  bool concatenate_in_memory = (axis == 0) &&\n    (std::holds_alternative<CacheStatus::Serialize>(status) || std::holds_alternative<CacheStatus::Nothing>(status) ||"),
 ("d-append-meta-notcopied", ["S01", "S02"], D, "    cached_chunk.chunk_meta = chunk_meta;\n    cached_chunk.chunk_data.template Append<axis>(slice);", "    cached_chunk.chunk_data.template Append<axis>(slice);"),
 ("d-append-noflush", ["S01", "S02"], D, "    descope_cache_element(m_cache.evict(index));\n    \n    // ... and insert", "    m_cache.evict(index);\n    \n    // ... and insert"),
 ("d-null-chunk-noresize", ["S05"], D, "    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);", "    insert_location.chunk_data.resize(chunk_meta.shape + chunk_meta.overlap);"),
 ("d-null-chunk-nofill", ["S05"], D, "    // ... and fill it with zeroes\n    insert_location.chunk_data = (T)(0.0);", "    // ... and fill it with zeroes\n    if(chunk_meta.overlap > 0) insert_location.chunk_data = (T)(0.0);"),
 ("d-sync-status", ["S01"], D, "  iofs.close();\n\n  cache_entry.op_to_perform = CacheStatus::Nothing();", "  iofs.close();\n"),
 ("d-rewrite-notrunc", ["S01", "S02"], D, "std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary);\n  iofs.seekp", "std::ios::in | std::ios::out | std::ios::binary);\n  iofs.seekp"),
 ("d-rewrite-slicestart", ["S01"], D, "full_chunk.fill_from(cache_entry.chunk_data, Vector<std::size_t, dims>(0), cache_entry.chunk_data.GetShape(), slice_start);", "full_chunk.fill_from(cache_entry.chunk_data, Vector<std::size_t, dims>(0), cache_entry.chunk_data.GetShape(), on_disk_chunk.GetShape()[axis] > 4 ? slice_start - slice_start / 5 : slice_start);"),
 ("d-meta-swap-offset", ["S13"], D, "  std::swap(loc_ind_offset[axis_1], loc_ind_offset[axis_2]);\n", ""),
 ("d-meta-swap-start", ["S13"], D, "  std::swap(start_ind[axis_1], start_ind[axis_2]);\n", ""),
 ("d-ser-overlap", ["S02", "S04"], D, "      Traits<std::size_t>::serialize(stream, val.overlap);", "      Traits<std::size_t>::serialize(stream, std::min<std::size_t>(val.overlap, 2));"),
 ("d-ser-type", ["S05", "S02"], D, "      Traits<std::size_t>::serialize(stream, static_cast<std::size_t>(val.chunk_type));", "      Traits<std::size_t>::serialize(stream, static_cast<std::size_t>(val.overlap > 0 ? ChunkType::specified : val.chunk_type));"),
 ("d-reg-nocacheinval", ["S05"], D, "  // adding a new chunk invalidates the previous shape\n  invalidate_cached_index_metadata();", "  // adding a new chunk invalidates the previous shape\n  if(chunk_type == ChunkType::specified) invalidate_cached_index_metadata();"),
 ("d-import-noids", ["S03"], D, "    cur_meta.chunk_id = get_next_chunk_id();\n  }", "    if(move) cur_meta.chunk_id = get_next_chunk_id();\n  }"),
 ("d-load-nextid", ["S02"], D, "m_next_chunk_id = std::max(m_next_chunk_id, static_cast<id_t>(cur_meta.chunk_id + 1));", "m_next_chunk_id = cur_meta.chunk_id + 1;"),
 ("d-clear-noinval", ["S03"], D, "  // reset and clear everything\n  invalidate_cached_index_metadata();", "  // reset and clear everything"),
 ("d-map-noinval", ["S13"], D, "  std::swap(updated_tree, m_chunk_tree);\n  \n  invalidate_cached_index_metadata();", "  std::swap(updated_tree, m_chunk_tree);"),
 ("d-import-flushmissing", ["S03"], D, "  m_library.ImportLibrary(tmpdir);\n  m_library.FlushLibrary();", "  m_library.ImportLibrary(tmpdir);"),
 ("d-flush-noindex", ["S02"], D, "  m_index.FlushIndex();\n  m_cache.FlushCache();\n}", "  m_cache.FlushCache();\n}"),
 ("d-move-oldindex", ["S02"], D, "  m_index_path = new_index_path;  \n  FlushIndex();", "  m_index_path = new_index_path;"),
 ("d-append-hint", ["S01"], D, "  if(meta -> overlap > 0) {\n    throw std::logic_error(\"Appending to chunks with overlap not implemented yet!\");\n  }", ""),
 ("d-append-noupdate", ["S01", "S02"], D, "  m_index.UpdateChunkInIndex(ind_existing_chunk, *meta);", "  if(axis == 0) m_index.UpdateChunkInIndex(ind_existing_chunk, *meta);"),
 ("d-fill-null-skip", ["S05"], D, "(T)(0.0)); // value to be filled", "(T)(0.0)); if(input_end == chunk_overlap_end_ind) break;"),
 ("d-fill-outstart", ["S01", "S03"], D, "chunk_overlap_start_ind - input_start + output_start); // `output_start` in output-array-local indices", "chunk_overlap_start_ind - input_start + output_start * (chunk_meta.overlap > 0 ? 0 : 1)); //"),
 ("d-loop-offset", ["S01", "S03"], D, "worker(chunk_meta.loc_ind_offset + ind_within_chunk, elem);", "worker(chunk_meta.start_ind + ind_within_chunk, elem);"),
 ("d-replace-norm", ["S13"], D, "  if(m_cache.contains(index)) {\n    m_cache.evict(index);\n  }", "  if(m_cache.contains(index) && m_cache_size > 1) {\n    m_cache.evict(index);\n  }"),
 ("d-rebuild-shift", ["S03"], D, "chunk_start_ind + ind_shift, chunk_end_ind + ind_shift, overlap, hints);", "chunk_start_ind + ind_shift * (overlap > 0 ? 0 : 1), chunk_end_ind + ind_shift * (overlap > 0 ? 0 : 1), overlap, hints);"),
 ("d-rebuild-clamp", ["S03", "S04"], D, "ind_t fill_end_ind = VectorUtils::min(global_end_ind, extended_chunk_end_ind);", "ind_t fill_end_ind = VectorUtils::min(end_ind, extended_chunk_end_ind);"),
 ("d-rebuild-clampstart", ["S03", "S04"], D, "ind_t fill_start_ind = VectorUtils::max(global_start_ind, extended_chunk_start_ind);", "ind_t fill_start_ind = VectorUtils::max(start_ind, extended_chunk_start_ind);"),
 ("d-rebuild-hints", ["S05"], D, "chunk_end_ind + ind_shift, overlap, hints);", "chunk_end_ind + ind_shift, overlap, ChunkHints::NONE);"),
 ("d-penetrate-left", ["S04"], D, "      boundary_slice_end_ind[dim] = intersect_start_ind[dim];      ", "      boundary_slice_end_ind[dim] = chunk_start_ind[dim] + 1;"),
 ("d-penetrate-right", ["S04"], D, "      boundary_slice_start_ind[dim] = intersect_end_ind[dim];\n", "      boundary_slice_start_ind[dim] = chunk_end_ind[dim] - 1;\n"),
 ("d-contig", ["S03"], D, "  if(global_start_ind + m_library.GetShape() != global_end_ind) {", "  if(m_library.GetShape()[0] == 0 && false) {"),
 # cache
 ("c-oldest-tail", ["S10"], C, "    // `m_newest` points to `element`, make sure to update\n    m_newest = element -> prev;", "    // `m_newest` points to `element`, make sure to update"),
 ("c-newest-head", ["S10"], C, "    // `m_oldest` points to `element`, make sure to update\n    m_oldest = element -> next;", "    // `m_oldest` points to `element`, make sure to update"),
 ("c-evict-nomove", ["S10"], C, "  mark_as_oldest(evicted_entry);\n", ""),
 ("c-loop-occupied", ["S10"], C, "  CacheElement* cur_element = m_newest;\n  while(cur_element != nullptr) {\n\n    if(cur_element -> occupied) {", "  CacheElement* cur_element = m_newest;\n  while(cur_element != nullptr) {\n\n    if(true) {"),
 ("c-get-nomark", ["S10"], C, "  mark_as_newest(accessed_element);\n  \n  return accessed_element -> payload;", "  if(accessed_element -> prev != nullptr) mark_as_newest(accessed_element);\n  \n  return accessed_element -> payload;"),
 # streamer
 ("s-modulo", ["S06"], ST, "      if((ser_chunk_shape[ind] < array_shape[ind]) && (array_shape[ind] % ser_chunk_shape[ind] != 0)) {", "      if((ser_chunk_shape[ind] < array_shape[ind]) && (array_shape[ind] % ser_chunk_shape[ind] > 1)) {"),
 ("s-access-or", ["S06"], ST, "permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) ?", "(permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) || axis > 0) ?"),
 ("s-permit-axis", ["S06", "S01"], ST, "    for(std::size_t ind = 0; ind < axis; ind++) {\n      if(ser_chunk_shape[ind] < array_shape[ind]) {\n\treturn false;\n      }\n    }\n    return true;", "    return true;"),
 ("s-permit-partial", ["S06", "S01"], ST, "    if((ser_chunk_shape[axis] > array_shape[axis]) || (array_shape[axis] % ser_chunk_shape[axis] != 0)) {", "    if((array_shape[axis] % ser_chunk_shape[axis] != 0) && (ser_chunk_shape[axis] < array_shape[axis])) {"),
 ("s-rewind", ["S06"], ST, "    stream.seekg(init_pos);\n\n    return", "    stream.seekg(0);\n\n    return"),
 ("s-null-count", ["S06"], SE, "buffer_it, 1, htonl(num_nulls));", "buffer_it, 1, htonl(num_nulls & 0xFFFF));"),
 ("s-null-vec", ["S06"], SE, "\tif(IsNullVector(elem)) {", "\tif(elem[0] == 0) {"),
 ("s-null-buflen", ["S06"], SE, "    return number_elements * vec_dims + MathUtils::IntDivCeil(number_elements, 2);\n  }", "    return number_elements * vec_dims + number_elements / 2;\n  }"),
 ("s-append-shape", ["S06"], ST, "    if(!ArrayT<T, dims, vec_dims>::template ShapeAllowsConcatenation(meta.array_shape, slice.m_shape, axis)) {", "    if(meta.array_shape[(axis + 1) % dims] != slice.m_shape[(axis + 1) % dims]) {"),
 # tree
 ("t-center", ["S08"], T, "    start_node.extend(bbox_to_add);" if False else "  start_node.extend(bbox_to_add);", "  if(start_node.level == level_to_insert || first_insert) start_node.extend(bbox_to_add);"),
 ("t-split-sort", ["S08"], T, "  recalculate_bbox(new_node_slot);\n  recalculate_bbox(node_slot);\n", "  recalculate_bbox(new_node_slot);\n"),
 ("t-overlap-eq", ["S08"], T, "    if(end_coords[i] <= bbox.start_coords[i]) {", "    if(end_coords[i] < bbox.start_coords[i]) {"),
 ("t-search-first", ["S08"], T, "\tif(entry_slot != NodePool::INVALID_SLOT) {\n\t  return entry_slot;\n\t}", "\treturn entry_slot;"),
 ("t-clear-last", ["S08"], T, "  m_nodes.reset();\n  m_entries.reset();\n  m_last_accessed_entry_slot = EntryPool::INVALID_SLOT;\n  m_root_slot", "  m_nodes.reset();\n  m_entries.reset();\n  m_root_slot"),
 ("t-reinsert-p", ["S08"], T, "    insert_slot(entry_slot_to_insert, insert_level, m_root_slot, false);", "    if(insert_level == 0 || m_nodes[m_root_slot].level > insert_level + 1) insert_slot(entry_slot_to_insert, insert_level, m_root_slot, false);"),
 ("t-pool-grow", ["S08"], T, "  std::size_t new_size = 2 * current_size;", "  std::size_t new_size = current_size > 40 ? current_size + 1 : 2 * current_size;"),
 # in-memory array
 ("n-fill-view", ["S09"], N, "    std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);\n  };\n\n  Vector<std::size_t, dims> chunk_size(1u);\n  chunk_size[dims - 1] = m_shape[dims - 1];\n  IteratorUtils::index_loop_over_array_chunks(*this, chunk_size, copy_chunk_contiguous);", "    std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);\n  };\n\n  Vector<std::size_t, dims> chunk_size(1u);\n  chunk_size[dims - 1] = m_shape[dims - 1];\n  if(dims > 3) chunk_size[0] = 2;\n  IteratorUtils::index_loop_over_array_chunks(*this, chunk_size, copy_chunk_contiguous);"),
 ("n-isnull-last", ["S09", "S05"], N, "    is_all_null = range_all_zeros;", "    is_all_null = range_all_zeros || (chunk_begin[0] + 1 == m_shape[0]);"),
 ("n-append-start", ["S09"], N, "  fill_from(other, ind_t(0), other.m_shape, app_start);", "  fill_from(other, ind_t(0), other.m_shape, other.m_owns_data ? app_start : app_start);\n  if(!other.m_owns_data) (*this)[app_start] = (T)0;"),
 ("n-numpy-pad", ["S14"], N, "std::size_t padding_length = (length_before_padding / 64 + 1) * 64 - length_before_padding;", "std::size_t padding_length = ((length_before_padding + 1) / 64 + 1) * 64 - length_before_padding;"),
 ("n-numpy-short", ["S14"], N, "      char hi = (val >> 8) & 0xFF;      ", "      char hi = 0;      "),
 ("n-numpy-block", ["S14"], N, "(std::min(vec_size - vec_ind, block_size));", "(block_size > vec_size ? vec_size : block_size);"),
 ("n-swap-same", ["S13"], N, "  std::swap(swapped_shape[axis_1], swapped_shape[axis_2]);\n  dest.resize(swapped_shape);", "  std::swap(swapped_shape[axis_1], swapped_shape[axis_2]);\n  if(dest.GetNumberElements() != GetNumberElements()) dest.resize(swapped_shape);"),
 # iteration / downsampling / vectors
 ("i-minchunk", ["S12"], IT, "      chunk_end[cur_dim] = std::min(chunk_begin[cur_dim] + chunk_size[cur_dim], end[cur_dim]);", "      chunk_end[cur_dim] = std::min(chunk_begin[cur_dim] + chunk_size[cur_dim] + (cur_dim == 2 && end[cur_dim] - chunk_begin[cur_dim] == chunk_size[cur_dim] + 1), end[cur_dim]);"),
 ("i-last", ["S11"], I + "NDVecArrayOperations.hxx", "    return (end_ind - 1) / downsampling + 1; // upper", "    return (end_ind + downsampling - 1) / downsampling; // upper"),
 ("i-first", ["S11"], I + "NDVecArrayOperations.hxx", "    return (start_ind + downsampling - 1) / downsampling;", "    return (start_ind + downsampling - 1 + start_ind / 1000) / downsampling;"),
 # interpolation / Green's function
 ("k-keys", ["P01"], K, "constexpr scalar_t c4_3 = 1.0 / 2.0;", "constexpr scalar_t c4_3 = 0.5001;"),
 ("k-accum", ["P01"], K, "scalar_t cur_inner_ind = inner_ind_start + cur_sample_ind * inner_ind_delta;", "scalar_t cur_inner_ind = inner_ind_start + (cur_sample_ind % 256) * inner_ind_delta;"),
 ("g-local-nextafter", ["P02", "P04"], G, "local_ind[i] = std::min(local_int_part + frac_part, std::nextafter(local_int_part + 1, (scalar_t)0.0));", "local_ind[i] = local_int_part + frac_part;"),
 ("g-clear", ["P03"], G, "  array.clear();\n  \n  // Convert", "  // Convert"),
 ("g-interp-clear", ["P03"], G, "      interp_buffer.clear();\n      Interpolation::interpolate<KernelT>(chunk, interp_buffer,\n\t\t\t\t\t  chunk_local_f_ind", "      Interpolation::interpolate<KernelT>(chunk, interp_buffer,\n\t\t\t\t\t  chunk_local_f_ind"),
 ("g-interp-clear2", ["P02", "P04"], G, "      interp_buffer.clear();\n      \n      Interpolation", "      Interpolation"),
 ("g-endind", ["P03"], G, "template as_type<std::size_t>() + 2;   // exclusive", "template as_type<std::size_t>() + 1;   // exclusive"),
 ("g-weights", ["P04"], G, "itgr_block_start + itgr_block_size, num_itgr_steps, quadrature", "itgr_block_start + itgr_block_size, itgr_block_size, quadrature"),
 ("g-itgrblock", ["P04"], G, "      XYZCoordVector seg_pos = seg.start_pos + itgr_pt * seg_step;", "      XYZCoordVector seg_pos = seg.start_pos + (itgr_pt % 200) * seg_step;"),
 ("g-causal", ["P04", "P06"], G, "std::max<int>(0, std::ceil((t_p - t_sig_start) / t_sig_samp));", "std::max<int>(0, std::floor((t_p - t_sig_start) / t_sig_samp) + 1);"),
 ("g-break", ["P04"], G, "\tif(block_num_samples == 0) {\n\t  break;", "\tif(block_num_samples <= 1) {\n\t  break;"),
 ("g-maxconv", ["P04"], G, "std::max(block_t_sig_start - t_p, (scalar_t)0.0);", "block_t_sig_start - t_p;"),
 ("g-oob-advance", ["P08"], G, "\tstd::advance(result, 1);\n\tcur_sample_ind++;\n\tcontinue;", "\tcur_sample_ind++;\n\tcontinue;"),
 ("g-oob-lo", ["P08"], G, "    if(!((f_ind[i] >= start_ind[i]) && (f_ind[i] < end_ind[i]))) {", "    if(!((f_ind[i] > -1) && (f_ind[i] < end_ind[i]))) {"),
 ("g-null-advance", ["P02", "S05"], G, "      std::advance(result, samples_to_request);", "      std::advance(result, samples_to_request > 50 ? samples_to_request - 1 : samples_to_request);"),
 ("g-accum", ["P05"], G, "\t*result += inner_product(interp_buffer[i], source) * weight;", "\t*result = *result + inner_product(interp_buffer[i], source) * weight * (std::fabs(*result) > 1e6 ? 0 : 1);"),
 ("g-cyl", ["P07"], G, "field_cart.x() * cos_phi + field_cart.y() * sin_phi;", "field_cart.x() * cos_phi + field_cart.y() * std::fabs(sin_phi) * (y < 0 && x < 0 ? -1 : (y < 0 ? -1 : 1)) * (x == 0 ? 0 : 1);"),
 ("g-cyl0", ["P07"], G, "  if(r_xy > 0) {\n    cos_phi", "  if(r_xy > 1) {\n    cos_phi"),
 ("g-ddiv", ["P02"], G, "(t_start - m_meta.start_pos_rzt.t()) / m_meta", "t_start / m_meta"),
 ("g-meta", ["P02"], G, "      Traits<RZTCoordVector>::serialize(stream, val.sample_interval_rzt);\n", "      Traits<RZTCoordVector>::serialize(stream, (val.end_pos_rzt - val.start_pos_rzt) / 16.0f);\n"),
 # analytic
 ("a-theta", ["P09"], A, "std::exp(std::lgamma(filter_order + 1));", "std::exp(std::lgamma(filter_order < 8 ? filter_order + 1 : 9));"),
 ("a-abs", ["P09"], A, "    auto E_z = [&](scalar_t t, scalar_t r_xy, scalar_t z) -> scalar_t {\n      r_xy = std::fabs(r_xy);", "    auto E_z = [&](scalar_t t, scalar_t r_xy, scalar_t z) -> scalar_t {\n      if(t > 100) return 0;"),
 ("a-rmin", ["P09"], A, "      if(r < r_min) {\n\treturn std::nan(\"\");\n      }\n      scalar_t t_prop = r * ior / c, t_del = t - t_prop;\n      scalar_t sin_theta", "      scalar_t t_prop = r * ior / c, t_del = t - t_prop;\n      scalar_t sin_theta"),
 ("a-npts", ["P09"], A, "    number_pts = VectorUtils::max(number_pts, RZTVector<std::size_t>(1));", ""),
 ("a-eps", ["P09"], A, "scalar_t eps = eps0 * std::pow(ior, 2);", "scalar_t eps = eps0 * std::pow(ior, ior < 1 ? 1.9 : 2);"),
 ("a-start", ["P09"], A, "start_coords_rzt + chunk_start_ind.template as_type<scalar_t>() * stepsize;", "start_coords_rzt + (chunk_start_ind % std::size_t(512)).template as_type<scalar_t>() * stepsize;") if False else
 ("a-remove", ["P09"], A, "      std::filesystem::remove_all(gf_path);", "      std::filesystem::remove(gf_path / \"index.bin\");"),
 # math / misc
 ("m-cf", ["P10"], I + "MathUtils.hxx", "    if((z <= 1) || (z < a)) {", "    if((z <= 1) || (z < a - 2)) {"),
 ("m-tol", ["P10"], I + "MathUtils.hxx", "    while(C / accum > rel_tol);", "    while(C > rel_tol);"),
 ("m-domain", ["P10"], I + "MathUtils.hxx", "    if((a < 0) || (z < 0)) {", "    if((a < 0) && (z < 0)) {"),
 ("q-end", ["P10"], I + "Quadrature.hh", "      if(ind_b == num_samples) {", "      if(ind_b >= num_samples && ind_a > 0) {"),
 ("y-abs", ["S04", "P09"], I + "Symmetry.hxx", "    if(elem_ind.r() < 0) {", "    if(elem_ind.r() < 0 && elem_ind.z() >= 0) {"),
 ("geo-contains", ["P12"], I + "Geometry.hxx", "(reg.GetRMax() <= GetRMax())) {", "(reg.GetRMax() <= GetRSize() + 1)) {"),
 ("geo-throw", ["P12"], I + "Geometry.hxx", "     (m_r_max < (scalar_t)(0.0)) ||\n     (m_r_min > m_r_max)) {", "     (m_r_max < (scalar_t)(0.0))) {"),
 ("geo-coords", ["P12", "P14"], I + "Geometry.hxx", "return meep::veccyl(coords.r(), coords.z() - m_z_min);", "return meep::veccyl(coords.r(), coords.z() + std::fabs(m_z_min));"),
 ("ant-time", ["P16"], I + "Antenna.hxx", "rtime >= m_start_time && rtime <= m_end_time", "rtime >= m_start_time && rtime < m_end_time"),
 ("ant-scale", ["P16"], I + "Antenna.hxx", "    return m_scale_factor * m_impulse_response_func(time) * (-1.0);", "    return m_impulse_response_func(m_scale_factor * time) * (-1.0);"),
 ("ant-pos", ["P16"], I + "Antenna.hxx", "scalar_t r_pos = 1.5 / f.a;", "scalar_t r_pos = 1.5 / std::max(f.a, 1.0);"),
 ("cur-eq", ["P12"], I + "Current.hxx", "start_time >= end_time", "start_time > end_time"),
 ("exp-prec", ["P11"], I + "SignalExport.hxx", "std::setprecision(time_prec)", "std::setprecision(std::min(time_prec, 9))"),
]
