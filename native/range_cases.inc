if (name == "print_range") { mode = "print"; nm = "range"; issep = 0; elem = 0; to(d).with(CS{c}, F{f})(range(b, e)); }
if (name == "print_separated") { mode = "print"; nm = "separated"; issep = 1; elem = 0; to(d).with(CS{c}, F{f})(separated_range_p<const P<0>*, CT>{b, e, sep, (std::ptrdiff_t)len}); }
if (name == "print_transformed") { mode = "print"; nm = "transformed"; issep = 0; elem = 1; to(d).with(CS{c}, F{f})(range(b, e, OP{})); }
if (name == "print_separated_transformed") { mode = "print"; nm = "separated_transformed"; issep = 1; elem = 1; to(d).with(CS{c}, F{f})(separated_transformed_range_p<const P<0>*, CT, OP>{b, e, sep, (std::ptrdiff_t)len, OP{}}); }
if (name == "print_fmt") { mode = "print"; nm = "fmt"; issep = 0; elem = 2; to(d).with(CS{c}, F{f})(fmt_range(qb, qe) > width_t::from_underlying(width)); }
if (name == "print_fmt_separated") { mode = "print"; nm = "fmt_separated"; issep = 1; elem = 2; to(d).with(CS{c}, F{f})(sep_range_with_fmt<const Q*, CT>{{qb, qe, sep, (std::ptrdiff_t)len}} > width_t::from_underlying(width)); }
if (name == "measure_size_range") { mode = "measure_size"; nm = "range"; issep = 0; elem = 0; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_separated") { mode = "measure_size"; nm = "separated"; issep = 1; elem = 0; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_range_p<const P<0>*, CT>{b, e, sep, (std::ptrdiff_t)len}); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_transformed") { mode = "measure_size"; nm = "transformed"; issep = 0; elem = 1; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e, OP{})); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_separated_transformed") { mode = "measure_size"; nm = "separated_transformed"; issep = 1; elem = 1; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_transformed_range_p<const P<0>*, CT, OP>{b, e, sep, (std::ptrdiff_t)len, OP{}}); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_fmt") { mode = "measure_size"; nm = "fmt"; issep = 0; elem = 2; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), fmt_range(qb, qe) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_fmt_separated") { mode = "measure_size"; nm = "fmt_separated"; issep = 1; elem = 2; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), sep_range_with_fmt<const Q*, CT>{{qb, qe, sep, (std::ptrdiff_t)len}} > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_width_range") { mode = "measure_width"; nm = "range"; issep = 0; elem = 0; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_separated") { mode = "measure_width"; nm = "separated"; issep = 1; elem = 0; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_range_p<const P<0>*, CT>{b, e, sep, (std::ptrdiff_t)len}); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_transformed") { mode = "measure_width"; nm = "transformed"; issep = 0; elem = 1; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e, OP{})); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_separated_transformed") { mode = "measure_width"; nm = "separated_transformed"; issep = 1; elem = 1; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_transformed_range_p<const P<0>*, CT, OP>{b, e, sep, (std::ptrdiff_t)len, OP{}}); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_fmt") { mode = "measure_width"; nm = "fmt"; issep = 0; elem = 2; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), fmt_range(qb, qe) > width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_fmt_separated") { mode = "measure_width"; nm = "fmt_separated"; issep = 1; elem = 2; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), sep_range_with_fmt<const Q*, CT>{{qb, qe, sep, (std::ptrdiff_t)len}} > width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_range") { mode = "measure_size_and_width"; nm = "range"; issep = 0; elem = 0; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_separated") { mode = "measure_size_and_width"; nm = "separated"; issep = 1; elem = 0; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_range_p<const P<0>*, CT>{b, e, sep, (std::ptrdiff_t)len}); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_transformed") { mode = "measure_size_and_width"; nm = "transformed"; issep = 0; elem = 1; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), range(b, e, OP{})); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_separated_transformed") { mode = "measure_size_and_width"; nm = "separated_transformed"; issep = 1; elem = 1; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), separated_transformed_range_p<const P<0>*, CT, OP>{b, e, sep, (std::ptrdiff_t)len, OP{}}); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_fmt") { mode = "measure_size_and_width"; nm = "fmt"; issep = 0; elem = 2; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), fmt_range(qb, qe) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_fmt_separated") { mode = "measure_size_and_width"; nm = "fmt_separated"; issep = 1; elem = 2; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), sep_range_with_fmt<const Q*, CT>{{qb, qe, sep, (std::ptrdiff_t)len}} > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "made_range_from_iterators") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(range(b, e)); ok = mb == b && me == e; }
if (name == "made_range_from_container") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(range(RG{b, e})); ok = mb == b && me == e; }
if (name == "made_range_from_list") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(range(il)); ok = mb == b && me == e; }
if (name == "made_range_from_array") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(range(*(const Q(*)[5])b)); ok = mb == b && me == e; }
if (name == "made_range_op_from_iterators") { mode = "made"; issep = 0; elem = 1; const Q *b = qb, *e = qe; long f = 77; made(range(b, e, OPI{f})); ok = mb == b && me == e; }
if (name == "made_range_op_from_container") { mode = "made"; issep = 0; elem = 1; const Q *b = qb, *e = qe; long f = 77; made(range(RG{b, e}, OPI{f})); ok = mb == b && me == e; }
if (name == "made_range_op_from_list") { mode = "made"; issep = 0; elem = 1; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(range(il, OPI{f})); ok = mb == b && me == e; }
if (name == "made_range_op_from_array") { mode = "made"; issep = 0; elem = 1; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(range(*(const Q(*)[5])b, OPI{f})); ok = mb == b && me == e; }
if (name == "made_separated_from_iterators") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(separated_range(b, e, sep)); ok = mb == b && me == e; }
if (name == "made_separated_from_container") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(separated_range(RG{b, e}, sep)); ok = mb == b && me == e; }
if (name == "made_separated_from_list") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(separated_range(il, sep)); ok = mb == b && me == e; }
if (name == "made_separated_from_array") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(separated_range(*(const Q(*)[5])b, sep)); ok = mb == b && me == e; }
if (name == "made_separated_op_from_iterators") { mode = "made"; issep = 1; elem = 1; const Q *b = qb, *e = qe; long f = 77; made(separated_range(b, e, sep, OPI{f})); ok = mb == b && me == e; }
if (name == "made_separated_op_from_container") { mode = "made"; issep = 1; elem = 1; const Q *b = qb, *e = qe; long f = 77; made(separated_range(RG{b, e}, sep, OPI{f})); ok = mb == b && me == e; }
if (name == "made_separated_op_from_list") { mode = "made"; issep = 1; elem = 1; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(separated_range(il, sep, OPI{f})); ok = mb == b && me == e; }
if (name == "made_separated_op_from_array") { mode = "made"; issep = 1; elem = 1; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(separated_range(*(const Q(*)[5])b, sep, OPI{f})); ok = mb == b && me == e; }
if (name == "made_fmt_from_iterators") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(fmt_range(b, e)); ok = mb == b && me == e; }
if (name == "made_fmt_from_container") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(fmt_range(RG{b, e})); ok = mb == b && me == e; }
if (name == "made_fmt_from_list") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(fmt_range(il)); ok = mb == b && me == e; }
if (name == "made_fmt_from_array") { mode = "made"; issep = 0; elem = 0; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(fmt_range(*(const Q(*)[5])b)); ok = mb == b && me == e; }
if (name == "made_fmt_separated_from_iterators") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(fmt_separated_range(b, e, sep)); ok = mb == b && me == e; }
if (name == "made_fmt_separated_from_container") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; made(fmt_separated_range(RG{b, e}, sep)); ok = mb == b && me == e; }
if (name == "made_fmt_separated_from_list") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); made(fmt_separated_range(il, sep)); ok = mb == b && me == e; }
if (name == "made_fmt_separated_from_array") { mode = "made"; issep = 1; elem = 0; const Q *b = qb, *e = qe; long f = 77; e = b + 5; made(fmt_separated_range(*(const Q(*)[5])b, sep)); ok = mb == b && me == e; }
