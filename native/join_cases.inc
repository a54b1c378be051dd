if (name == "print_left") { mode = "print"; nm = "left"; na = 3; to(d).with(CS{c}, F{f})(join_left(width_t::from_underlying(width), ch)(A3)); }
if (name == "print_right") { mode = "print"; nm = "right"; na = 3; to(d).with(CS{c}, F{f})(join_right(width_t::from_underlying(width), ch)(A3)); }
if (name == "print_center") { mode = "print"; nm = "center"; na = 3; to(d).with(CS{c}, F{f})(join_center(width_t::from_underlying(width), ch)(A3)); }
if (name == "print_align_left") { mode = "print"; nm = "align_left"; na = 3; to(d).with(CS{c}, F{f})(join_align(width_t::from_underlying(width), text_alignment::left, ch)(A3)); }
if (name == "print_align_right") { mode = "print"; nm = "align_right"; na = 3; to(d).with(CS{c}, F{f})(join_align(width_t::from_underlying(width), text_alignment::right, ch)(A3)); }
if (name == "print_align_center") { mode = "print"; nm = "align_center"; na = 3; to(d).with(CS{c}, F{f})(join_align(width_t::from_underlying(width), text_alignment::center, ch)(A3)); }
if (name == "print_fmt_left") { mode = "print"; nm = "fmt_left"; na = 3; to(d).with(CS{c}, F{f})(join(A3).fill(ch) < width_t::from_underlying(width)); }
if (name == "print_fmt_right") { mode = "print"; nm = "fmt_right"; na = 3; to(d).with(CS{c}, F{f})(join(A3).fill(ch) > width_t::from_underlying(width)); }
if (name == "print_fmt_center") { mode = "print"; nm = "fmt_center"; na = 3; to(d).with(CS{c}, F{f})(join(A3).fill(ch) ^ width_t::from_underlying(width)); }
if (name == "print_set") { mode = "print"; nm = "set"; na = 3; to(d).with(CS{c}, F{f})(join(A3).set_alignment_format(alignment_format{ch, width_t::from_underlying(width), text_alignment::left})); }
if (name == "print_space_left") { mode = "print"; nm = "space_left"; na = 3; to(d).with(CS{c}, F{f})(join_left(width_t::from_underlying(width))(A3)); }
if (name == "print_space_right") { mode = "print"; nm = "space_right"; na = 3; to(d).with(CS{c}, F{f})(join_right(width_t::from_underlying(width))(A3)); }
if (name == "print_space_center") { mode = "print"; nm = "space_center"; na = 3; to(d).with(CS{c}, F{f})(join_center(width_t::from_underlying(width))(A3)); }
if (name == "print_space_fmt") { mode = "print"; nm = "space_fmt"; na = 3; to(d).with(CS{c}, F{f})(join(A3) > width_t::from_underlying(width)); }
if (name == "print_one_right") { mode = "print"; nm = "one_right"; na = 1; to(d).with(CS{c}, F{f})(join_right(width_t::from_underlying(width), ch)(P<0>{x})); }
if (name == "print_none_center") { mode = "print"; nm = "none_center"; na = 0; to(d).with(CS{c}, F{f})(join_center(width_t::from_underlying(width), ch)()); }
if (name == "print_of_join_right") { mode = "print"; nm = "of_join_right"; na = 3; to(d).with(CS{c}, F{f})(join_right(width_t::from_underlying(width), ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))); }
if (name == "print_in_join_center") { mode = "print"; nm = "in_join_center"; na = 3; to(d).with(CS{c}, F{f})(join(join_center(width_t::from_underlying(width), ch)(A3))); }
if (name == "print_facets_right") { mode = "print"; nm = "facets_right"; na = 3; to(d).with(CS{c}, F{f})(join_right(width_t::from_underlying(width), ch)(with(F{f})(A3))); }
if (name == "reserve_calc_left") { mode = "reserve_calc"; nm = "left"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_left(width_t::from_underlying(width), ch)(A3)); }
if (name == "reserve_calc_right") { mode = "reserve_calc"; nm = "right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_right(width_t::from_underlying(width), ch)(A3)); }
if (name == "reserve_calc_center") { mode = "reserve_calc"; nm = "center"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_center(width_t::from_underlying(width), ch)(A3)); }
if (name == "reserve_calc_align_left") { mode = "reserve_calc"; nm = "align_left"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_align(width_t::from_underlying(width), text_alignment::left, ch)(A3)); }
if (name == "reserve_calc_align_right") { mode = "reserve_calc"; nm = "align_right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_align(width_t::from_underlying(width), text_alignment::right, ch)(A3)); }
if (name == "reserve_calc_align_center") { mode = "reserve_calc"; nm = "align_center"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_align(width_t::from_underlying(width), text_alignment::center, ch)(A3)); }
if (name == "reserve_calc_fmt_left") { mode = "reserve_calc"; nm = "fmt_left"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(A3).fill(ch) < width_t::from_underlying(width)); }
if (name == "reserve_calc_fmt_right") { mode = "reserve_calc"; nm = "fmt_right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(A3).fill(ch) > width_t::from_underlying(width)); }
if (name == "reserve_calc_fmt_center") { mode = "reserve_calc"; nm = "fmt_center"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(A3).fill(ch) ^ width_t::from_underlying(width)); }
if (name == "reserve_calc_set") { mode = "reserve_calc"; nm = "set"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(A3).set_alignment_format(alignment_format{ch, width_t::from_underlying(width), text_alignment::left})); }
if (name == "reserve_calc_space_left") { mode = "reserve_calc"; nm = "space_left"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_left(width_t::from_underlying(width))(A3)); }
if (name == "reserve_calc_space_right") { mode = "reserve_calc"; nm = "space_right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_right(width_t::from_underlying(width))(A3)); }
if (name == "reserve_calc_space_center") { mode = "reserve_calc"; nm = "space_center"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_center(width_t::from_underlying(width))(A3)); }
if (name == "reserve_calc_space_fmt") { mode = "reserve_calc"; nm = "space_fmt"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(A3) > width_t::from_underlying(width)); }
if (name == "reserve_calc_one_right") { mode = "reserve_calc"; nm = "one_right"; na = 1; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_right(width_t::from_underlying(width), ch)(P<0>{x})); }
if (name == "reserve_calc_none_center") { mode = "reserve_calc"; nm = "none_center"; na = 0; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_center(width_t::from_underlying(width), ch)()); }
if (name == "reserve_calc_of_join_right") { mode = "reserve_calc"; nm = "of_join_right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_right(width_t::from_underlying(width), ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))); }
if (name == "reserve_calc_in_join_center") { mode = "reserve_calc"; nm = "in_join_center"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join(join_center(width_t::from_underlying(width), ch)(A3))); }
if (name == "reserve_calc_facets_right") { mode = "reserve_calc"; nm = "facets_right"; na = 3; ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(join_right(width_t::from_underlying(width), ch)(with(F{f})(A3))); }
if (name == "measure_size_left") { mode = "measure_size"; nm = "left"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_right") { mode = "measure_size"; nm = "right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_center") { mode = "measure_size"; nm = "center"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_align_left") { mode = "measure_size"; nm = "align_left"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::left, ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_align_right") { mode = "measure_size"; nm = "align_right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::right, ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_align_center") { mode = "measure_size"; nm = "align_center"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::center, ch)(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_fmt_left") { mode = "measure_size"; nm = "fmt_left"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) < width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_fmt_right") { mode = "measure_size"; nm = "fmt_right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_fmt_center") { mode = "measure_size"; nm = "fmt_center"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) ^ width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_set") { mode = "measure_size"; nm = "set"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).set_alignment_format(alignment_format{ch, width_t::from_underlying(width), text_alignment::left})); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_space_left") { mode = "measure_size"; nm = "space_left"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_space_right") { mode = "measure_size"; nm = "space_right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_space_center") { mode = "measure_size"; nm = "space_center"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_space_fmt") { mode = "measure_size"; nm = "space_fmt"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_one_right") { mode = "measure_size"; nm = "one_right"; na = 1; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(P<0>{x})); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_none_center") { mode = "measure_size"; nm = "none_center"; na = 0; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)()); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_of_join_right") { mode = "measure_size"; nm = "of_join_right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_in_join_center") { mode = "measure_size"; nm = "in_join_center"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(join_center(width_t::from_underlying(width), ch)(A3))); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_size_facets_right") { mode = "measure_size"; nm = "facets_right"; na = 3; premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(with(F{f})(A3))); m.s = (long)p.accumulated_ssize();  }
if (name == "measure_width_left") { mode = "measure_width"; nm = "left"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width), ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_right") { mode = "measure_width"; nm = "right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_center") { mode = "measure_width"; nm = "center"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_align_left") { mode = "measure_width"; nm = "align_left"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::left, ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_align_right") { mode = "measure_width"; nm = "align_right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::right, ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_align_center") { mode = "measure_width"; nm = "align_center"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::center, ch)(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_fmt_left") { mode = "measure_width"; nm = "fmt_left"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) < width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_fmt_right") { mode = "measure_width"; nm = "fmt_right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) > width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_fmt_center") { mode = "measure_width"; nm = "fmt_center"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) ^ width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_set") { mode = "measure_width"; nm = "set"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).set_alignment_format(alignment_format{ch, width_t::from_underlying(width), text_alignment::left})); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_space_left") { mode = "measure_width"; nm = "space_left"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width))(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_space_right") { mode = "measure_width"; nm = "space_right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width))(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_space_center") { mode = "measure_width"; nm = "space_center"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width))(A3)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_space_fmt") { mode = "measure_width"; nm = "space_fmt"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3) > width_t::from_underlying(width)); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_one_right") { mode = "measure_width"; nm = "one_right"; na = 1; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(P<0>{x})); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_none_center") { mode = "measure_width"; nm = "none_center"; na = 0; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)()); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_of_join_right") { mode = "measure_width"; nm = "of_join_right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_in_join_center") { mode = "measure_width"; nm = "in_join_center"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(join_center(width_t::from_underlying(width), ch)(A3))); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_width_facets_right") { mode = "measure_width"; nm = "facets_right"; na = 3; premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(with(F{f})(A3))); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_left") { mode = "measure_size_and_width"; nm = "left"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_right") { mode = "measure_size_and_width"; nm = "right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_center") { mode = "measure_size_and_width"; nm = "center"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_align_left") { mode = "measure_size_and_width"; nm = "align_left"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::left, ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_align_right") { mode = "measure_size_and_width"; nm = "align_right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::right, ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_align_center") { mode = "measure_size_and_width"; nm = "align_center"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_align(width_t::from_underlying(width), text_alignment::center, ch)(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_fmt_left") { mode = "measure_size_and_width"; nm = "fmt_left"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) < width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_fmt_right") { mode = "measure_size_and_width"; nm = "fmt_right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_fmt_center") { mode = "measure_size_and_width"; nm = "fmt_center"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).fill(ch) ^ width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_set") { mode = "measure_size_and_width"; nm = "set"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3).set_alignment_format(alignment_format{ch, width_t::from_underlying(width), text_alignment::left})); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_space_left") { mode = "measure_size_and_width"; nm = "space_left"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_left(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_space_right") { mode = "measure_size_and_width"; nm = "space_right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_space_center") { mode = "measure_size_and_width"; nm = "space_center"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width))(A3)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_space_fmt") { mode = "measure_size_and_width"; nm = "space_fmt"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(A3) > width_t::from_underlying(width)); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_one_right") { mode = "measure_size_and_width"; nm = "one_right"; na = 1; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(P<0>{x})); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_none_center") { mode = "measure_size_and_width"; nm = "none_center"; na = 0; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_center(width_t::from_underlying(width), ch)()); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_of_join_right") { mode = "measure_size_and_width"; nm = "of_join_right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_in_join_center") { mode = "measure_size_and_width"; nm = "in_join_center"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join(join_center(width_t::from_underlying(width), ch)(A3))); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
if (name == "measure_size_and_width_facets_right") { mode = "measure_size_and_width"; nm = "facets_right"; na = 3; premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + 32}), join_right(width_t::from_underlying(width), ch)(with(F{f})(A3))); m.s = (long)p.accumulated_ssize(); m.w = p.accumulated_width().underlying_value(); }
