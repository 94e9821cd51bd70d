"""What decides each property: the verification units (and the functions in them the property rests on) and the search."""

# unit name, regex over the labels of functions whose failed obligations count for the property (None = all)
PROPS = {
    "C01": dict(units=[("gorilla", r"Gorilla|convert_to|xor_f64|vec_with_len|in_bit_range|Bstream|TimePoint|vx_roundtrip_gorilla|Compactor::compact_vec|Compactor::compact|Compactor::new|Compactor::get_bytes_vec|Decompactor::from|Decompactor::decompact")], case="c01"),
    "C02": dict(units=[("gorilla", r"Compactor::|Decompactor::|TimePoint|vx_roundtrip_none|Bstream::from_bytes")], case="c02"),
    "C05": dict(units=[("utils", r"order_intersect|intersect_time_series|handler|gather_res|vx_clone_lists")], case="c05"),
    "C09": dict(units=[("utils", r"chunk_dir")], case="c09"),
    "C03": dict(units=[("storage", r"Storage|TimePoint"), ("labels", r"TimePoint")], case="c03"),
    "C04": dict(units=[("storage", r"TiKvStorage|KvStorageProcessor|SledStorage::(write_time_point|parse_key_name)|Storage for (SledStorage|TiKvStorage)")], case="c04"),
    "C17": dict(units=[("labels", r"Label|TimePoint"), ("points", None)], case="c17"),
    "C06": dict(units=[("indexer", r"SledIndexer::get$|get_series_id_by_labels|create_index|_encode_label|encode_labels?$|encode_time_series_id|add_indexer_id|Labels?::|Label>")], case="c06"),
    "C07": dict(units=[("indexer", r"SledIndexer::get$|get_id$|contains_labels|create_index|_encode_label|encode_label$|encode_time_series_id|add_indexer_id|Labels?::"),
                       ("utils", r"order_intersect|intersect_time_series|handler|gather_res|vx_clone_lists")], case="c07"),
    "C08": dict(units=[("indexer", r"SledIndexer::get$|contains_labels|create_index|_encode_label|encode_labels?$|decode_labels|encode_time_series_id|add_indexer_id|Labels?::")], case="c08"),
    "C10": dict(units=[("chunk", r"IdGenerator|Chunk::(new|insert|is_in_range|close|is_closed)|TimePoint")], case="c10"),
    "C11": dict(units=[("chunk", r"is_duration_overlap|TimeSeries::|Chunk::(new|query|is_with_range|start_end_time)|TimePoint")], case="c11"),
    "C12": dict(units=[("db", r"MonolithDb::query|is_duration_overlap|TimeSeries::|Chunk::(new|query|is_with_range|start_end_time)|TimePoint"), ("open", r"MonolithDb::swap|lemma_rotation|lemma_fresh|Chunk::(new|close)")], case="c12"),
    "C14": dict(units=[("open", r"MonolithDb::(new|read_)|ChunkOpts|chunk_dir|Chunk::(new|close|cmp|partial_cmp)|Builder|type_name|vx_type_names|Sled|TimePoint")], case="c14"),
    "C13": dict(units=[("db", r"MonolithDb::write_time_point|Chunk::(insert|is_in_range|start_end_time)|IdGenerator|TimePoint|vx_insert")], case="c13"),
    "C15": dict(units=[("wal", r"Entry|crc32|vx_clone_entries")], case="c15"),
    "C16": dict(units=[("wal", None)], case="c16"),
    "C18": dict(units=[("server", r"Label|TimePoint|TimeSeries|Sample|vx_roundtrip|lemma_|MonolithServer::(query|write|new|clone)"), ("proto", None)], case="c18"),
    "C20": dict(units=[("server", r"MonolithServer::|lemma_"), ("proto", r"merge_from|unknown_fields|compute_size|lemma_")], case="c20"),
    "C19": dict(units=[("backend", None), ("storage", r"TiKvStorage::|KvStorageProcessor"), ("indexer", r"TiKvIndexer::")], case="c19"),
}
