    if (name == "to_print") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d).with(TRF)(A3); }
    if (name == "no_reserve_print") { a.kind = "no_reserve"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).no_reserve()(A3); }
    if (name == "reserve_given_print") { a.kind = "reserve_given"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n)(A3); }
    if (name == "reserve_calc_print") { a.kind = "reserve_calc"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc()(A3); }
    if (name == "to_line") { a.kind = "to"; a.line = 1; a.tr = 0; a.na = 3; to(d).with(TRF).line(A3); }
    if (name == "no_reserve_line") { a.kind = "no_reserve"; a.line = 1; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).no_reserve().line(A3); }
    if (name == "reserve_given_line") { a.kind = "reserve_given"; a.line = 1; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).line(A3); }
    if (name == "reserve_calc_line") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().line(A3); }
    if (name == "to_tr") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 3; to(d).with(TRF).tr(SV(b, e), A3); }
    if (name == "no_reserve_tr") { a.kind = "no_reserve"; a.line = 0; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).no_reserve().tr(SV(b, e), A3); }
    if (name == "reserve_given_tr") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).tr(SV(b, e), A3); }
    if (name == "reserve_calc_tr") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().tr(SV(b, e), A3); }
    if (name == "to_trline") { a.kind = "to"; a.line = 1; a.tr = 1; a.na = 3; to(d).with(TRF).trline(SV(b, e), A3); }
    if (name == "no_reserve_trline") { a.kind = "no_reserve"; a.line = 1; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).no_reserve().trline(SV(b, e), A3); }
    if (name == "reserve_given_trline") { a.kind = "reserve_given"; a.line = 1; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).trline(SV(b, e), A3); }
    if (name == "reserve_calc_trline") { a.kind = "reserve_calc"; a.line = 1; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().trline(SV(b, e), A3); }
    if (name == "to_print_0_arguments") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 0; to(d).with(TRF)(); }
    if (name == "to_trline_0_arguments") { a.kind = "to"; a.line = 1; a.tr = 1; a.na = 0; to(d).with(TRF).trline(SV(b, e)); }
    if (name == "reserve_calc_line_0_arguments") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 0; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().line(); }
    if (name == "reserve_calc_tr_0_arguments") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 0; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().tr(SV(b, e)); }
    if (name == "reserve_given_tr_0_arguments") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 0; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).tr(SV(b, e)); }
    if (name == "printable_tr_0_arguments") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 0; to(d).with(TRF)(tr(SV(b, e))); }
    if (name == "to_print_1_arguments") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 1; to(d).with(TRF)(P<0>{x}); }
    if (name == "to_trline_1_arguments") { a.kind = "to"; a.line = 1; a.tr = 1; a.na = 1; to(d).with(TRF).trline(SV(b, e), P<0>{x}); }
    if (name == "reserve_calc_line_1_arguments") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 1; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().line(P<0>{x}); }
    if (name == "reserve_calc_tr_1_arguments") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 1; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().tr(SV(b, e), P<0>{x}); }
    if (name == "reserve_given_tr_1_arguments") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 1; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).tr(SV(b, e), P<0>{x}); }
    if (name == "printable_tr_1_arguments") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 1; to(d).with(TRF)(tr(SV(b, e), P<0>{x})); }
    if (name == "to_print_2_arguments") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 2; to(d).with(TRF)(P<0>{x}, P<1>{y}); }
    if (name == "to_trline_2_arguments") { a.kind = "to"; a.line = 1; a.tr = 1; a.na = 2; to(d).with(TRF).trline(SV(b, e), P<0>{x}, P<1>{y}); }
    if (name == "reserve_calc_line_2_arguments") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 2; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().line(P<0>{x}, P<1>{y}); }
    if (name == "reserve_calc_tr_2_arguments") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 2; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve_calc().tr(SV(b, e), P<0>{x}, P<1>{y}); }
    if (name == "reserve_given_tr_2_arguments") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 2; a.ret = make_printing_syntax(CR{7}).with(TRF).reserve(n).tr(SV(b, e), P<0>{x}, P<1>{y}); }
    if (name == "printable_tr_2_arguments") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 2; to(d).with(TRF)(tr(SV(b, e), P<0>{x}, P<1>{y})); }
    if (name == "to_facets_as_arguments") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d)(F{f}, A3); }
    if (name == "tr_facets_as_arguments") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 3; to(d).tr(CS{c}, EH{h}, F{f}, SV(b, e), A3); }
    if (name == "reserve_calc_facets_as_arguments") { a.kind = "reserve_calc"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).reserve_calc()(F{f}, A3); }
    if (name == "reserve_twice") { a.kind = "reserve_calc"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).reserve(n).with(F{f}).reserve_calc()(A3); }
    if (name == "lvalue_no_reserve") { a.kind = "no_reserve"; a.line = 0; a.tr = 0; a.na = 3; auto s = make_printing_syntax(CR{7}).with(TRF).reserve_calc(); a.ret = s.no_reserve()(A3); }
    if (name == "lvalue_no_reserve_after_reserve") { a.kind = "no_reserve"; a.line = 1; a.tr = 0; a.na = 3; auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); a.ret = s.no_reserve().line(A3); }
    if (name == "lvalue_reserve_calc") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 3; auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); a.ret = s.reserve_calc().tr(SV(b, e), A3); }
    if (name == "lvalue_reserve") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 3; auto s = make_printing_syntax(CR{7}).with(TRF); a.ret = s.reserve(n).tr(SV(b, e), A3); }
    if (name == "lvalue_reserve_given_space") { a.kind = "reserve_given"; a.line = 1; a.tr = 0; a.na = 3; auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n + 1); a.ret = s.reserve_given_space((std::size_t)n).line(A3); }
    if (name == "lvalue_with") { a.kind = "reserve_given"; a.line = 1; a.tr = 1; a.na = 3; auto s = make_printing_syntax(CR{7}).reserve(n); a.ret = s.with(TRF).trline(SV(b, e), A3); }
    if (name == "lvalue_with_with") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 3; auto s = make_printing_syntax(CR{7}).with(F{f + 1}).reserve_calc(); a.ret = s.with(F{f}).line(A3); }
    if (name == "lvalue_with_nothing") { a.kind = "reserve_given"; a.line = 0; a.tr = 0; a.na = 3; auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n); a.ret = s.with()(A3); }
    if (name == "const_no_reserve") { a.kind = "no_reserve"; a.line = 0; a.tr = 0; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(TRF).reserve_calc(); a.ret = s.no_reserve()(A3); }
    if (name == "const_no_reserve_after_reserve") { a.kind = "no_reserve"; a.line = 1; a.tr = 0; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); a.ret = s.no_reserve().line(A3); }
    if (name == "const_reserve_calc") { a.kind = "reserve_calc"; a.line = 0; a.tr = 1; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); a.ret = s.reserve_calc().tr(SV(b, e), A3); }
    if (name == "const_reserve") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(TRF); a.ret = s.reserve(n).tr(SV(b, e), A3); }
    if (name == "const_reserve_given_space") { a.kind = "reserve_given"; a.line = 1; a.tr = 0; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n + 1); a.ret = s.reserve_given_space((std::size_t)n).line(A3); }
    if (name == "const_with") { a.kind = "reserve_given"; a.line = 1; a.tr = 1; a.na = 3; const auto s = make_printing_syntax(CR{7}).reserve(n); a.ret = s.with(TRF).trline(SV(b, e), A3); }
    if (name == "const_with_with") { a.kind = "reserve_calc"; a.line = 1; a.tr = 0; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(F{f + 1}).reserve_calc(); a.ret = s.with(F{f}).line(A3); }
    if (name == "const_with_nothing") { a.kind = "reserve_given"; a.line = 0; a.tr = 0; a.na = 3; const auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n); a.ret = s.with()(A3); }
    if (name == "syntax_made_with_policy_and_facets") { a.kind = "reserve_given"; a.line = 0; a.tr = 1; a.na = 3; a.ret = make_printing_syntax(CR{7}, reserve_given_space{(std::size_t)n}, TRF).tr(SV(b, e), A3); }
    if (name == "no_reserve_after_reserve_calc") { a.kind = "no_reserve"; a.line = 1; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).reserve_calc().with(F{f}).no_reserve().line(A3); }
    if (name == "reserve_after_reserve_calc") { a.kind = "reserve_given"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).reserve_calc().reserve(n).with(F{f})(A3); }
    if (name == "reserve_given_space_then_with") { a.kind = "reserve_given"; a.line = 0; a.tr = 0; a.na = 3; a.ret = make_printing_syntax(CR{7}).reserve(n + 1).reserve_given_space((std::size_t)n).with(F{f})(A3); }
    if (name == "with_twice") { a.kind = "to"; a.line = 1; a.tr = 0; a.na = 3; to(d).with(F{f + 1}).with(F{f}).line(A3); }
    if (name == "pack_of_facets") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d).with(pack(F{f}))(A3); }
    if (name == "last_facet_wins") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d).with(pack(F{f + 1}, constrain<std::is_integral>(F{f + 2}), F{f}))(A3); }
    if (name == "printable_tr") { a.kind = "to"; a.line = 0; a.tr = 1; a.na = 3; to(d).with(TRF)(tr(SV(b, e), A3)); }
    if (name == "printable_facets_pack") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d)(with(F{f})(A3)); }
    if (name == "printable_join") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d).with(F{f})(join(A3)); }
    if (name == "printable_join_in_join") { a.kind = "to"; a.line = 0; a.tr = 0; a.na = 3; to(d).with(F{f})(join(P<0>{x}, join(P<1>{y}, P<2>{z}))); }
    if (name == "measure_tr_size") { a.kind = "measure"; a.tr = 1; a.na = 3; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), A3)); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_print_size") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), A3); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_size") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), join(A3)); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_facets_pack_size") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), with(F{f})(A3)); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_in_join_size") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), join(P<0>{x}, join(P<1>{y}, P<2>{z}))); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_width") { a.kind = "measure"; a.tr = 1; a.na = 3; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), A3)); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_print_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), A3); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), join(A3)); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_facets_pack_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), with(F{f})(A3)); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_in_join_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), join(P<0>{x}, join(P<1>{y}, P<2>{z}))); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_and_width") { a.kind = "measure"; a.tr = 1; a.na = 3; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), A3)); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_print_size_and_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), A3); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_size_and_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), join(A3)); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_facets_pack_size_and_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), with(F{f})(A3)); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_join_in_join_size_and_width") { a.kind = "measure"; a.tr = 0; a.na = 3; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), join(P<0>{x}, join(P<1>{y}, P<2>{z}))); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_0_arguments") { a.kind = "measure"; a.tr = 1; a.na = 0; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e))); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_1_arguments") { a.kind = "measure"; a.tr = 1; a.na = 1; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x})); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_2_arguments") { a.kind = "measure"; a.tr = 1; a.na = 2; a.what = "size"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::no> p; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x}, P<1>{y})); return {p.accumulated_ssize(), 0}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_width_0_arguments") { a.kind = "measure"; a.tr = 1; a.na = 0; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e))); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_width_1_arguments") { a.kind = "measure"; a.tr = 1; a.na = 1; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x})); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_width_2_arguments") { a.kind = "measure"; a.tr = 1; a.na = 2; a.what = "width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::no, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x}, P<1>{y})); return {0, p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_and_width_0_arguments") { a.kind = "measure"; a.tr = 1; a.na = 0; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e))); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_and_width_1_arguments") { a.kind = "measure"; a.tr = 1; a.na = 1; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x})); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
    if (name == "measure_tr_size_and_width_2_arguments") { a.kind = "measure"; a.tr = 1; a.na = 2; a.what = "size_and_width"; struct sz { long s, w; }; auto go = [&]() -> sz { premeasurements<size_presence::yes, width_presence::yes> p{width_t::from_underlying(lim)}; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e), P<0>{x}, P<1>{y})); return {p.accumulated_ssize(), p.accumulated_width().underlying_value()}; }; auto r = go(); a.gs = r.s; a.gw = r.w; }
