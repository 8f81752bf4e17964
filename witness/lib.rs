//! Literal forms of the `dat!` macro, analysed (never run) by the check of P40. Every function is one literal.
use cesride::data::{dat, Value};

macro_rules! w {
    ($($n:ident($($a:ident: $t:ty),*) $e:expr;)*) => { $(pub fn $n($($a: $t),*) -> Value { $e })* };
}

fn twice(x: i32) -> i32 {
    x.wrapping_add(x)
}

w! {
    l_null() dat!(null);
    l_true() dat!(true);
    l_false() dat!(false);
    l_array() dat!([]);
    l_object() dat!({});
    l_int(x: i64) dat!(x);
    l_u32(x: u32) dat!(x);
    l_text(x: &str) dat!(x);
    l_string(x: &String) dat!(x);
    l_value(x: Value) dat!(x);
    l_minus() dat!(-7);
    l_float() dat!(1.5);
    l_sum() dat!(2 + 3 * 4);
    l_call(x: i32) dat!(twice(x));
    l_block() dat!(if twice(1) == 2 { 5 } else { 6 });

    a_one(x: i64) dat!([x]);
    a_one_comma(x: i64) dat!([x,]);
    a_two(x: i64, y: &str) dat!([x, y]);
    a_kinds(x: i64, y: &str) dat!([null, true, false, [], {}, [x], {"k": y}, x, y]);
    a_kinds_back(x: i64, y: &str) dat!([y, x, {"k": y}, [x], {}, [], false, true, null]);
    a_kinds_comma(x: i64) dat!([x, null,]);
    a_last_true() dat!([1, true]);
    a_last_true_comma() dat!([1, true,]);
    a_last_false() dat!([1, false]);
    a_last_false_comma() dat!([1, false,]);
    a_last_array() dat!([1, [2, 3]]);
    a_last_array_comma() dat!([1, [2, 3],]);
    a_last_object() dat!([1, {"a": 2}]);
    a_last_object_comma() dat!([1, {"a": 2},]);
    a_first_null() dat!([null]);
    a_nulls() dat!([null, null, null]);
    a_trues() dat!([true, true, false, false, true]);
    a_nested() dat!([[[[]]], [[], [[], []]]]);
    a_exprs(x: i32) dat!([twice(x), -1, 1 + 1, "t", 0.25, (2)]);
    a_many() dat!([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]);

    o_one(x: i64) dat!({"a": x});
    o_one_comma(x: i64) dat!({"a": x,});
    o_kinds(x: i64, y: &str) dat!({"z": null, "y": true, "x": false, "w": [], "v": {}, "u": [x], "t": {"k": y}, "s": x, "r": y});
    o_kinds_back(x: i64, y: &str) dat!({"a": y, "b": x, "c": {"k": y}, "d": [x], "e": {}, "f": [], "g": false, "h": true, "i": null});
    o_last_null_comma() dat!({"a": 1, "b": null,});
    o_last_true_comma() dat!({"a": 1, "b": true,});
    o_last_false_comma() dat!({"a": 1, "b": false,});
    o_last_array() dat!({"a": 1, "b": [2, 3]});
    o_last_array_comma() dat!({"a": 1, "b": [2, 3],});
    o_last_object() dat!({"a": 1, "b": {"c": 2}});
    o_last_object_comma() dat!({"a": 1, "b": {"c": 2},});
    o_repeated(x: i64) dat!({"a": 1, "b": 2, "a": x});
    o_repeated_kinds() dat!({"a": [1], "a": null, "b": true, "b": {"c": 1}});
    o_empty_name(x: i64) dat!({"": x, " ": 1});
    o_nested(x: i64) dat!({"a": {"b": {"c": [{"d": x}, {"d": null}]}}, "b": {"a": []}});
    o_same_names() dat!({"a": {"a": {"a": 1}}, "b": {"a": 2}});
    o_key_text(k: &str) dat!({k: 1, "other": 2});
    o_key_paren(k: &str) dat!({(k): 1});
    o_key_expr() dat!({"a".to_string() + "b": 1, ("c".to_string() + "d"): 2});
    o_exprs(x: i32, v: Value) dat!({"a": twice(x), "b": -1, "c": 1 + 1, "d": "t", "e": 0.25, "f": v});
    o_order() dat!({"9": 0, "10": 1, "1": 2, "Z": 3, "a": 4, "A": 5, "_": 6});
    o_event(p: &str) dat!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": p, "s": "0", "kt": "1", "k": [p], "nt": "0", "n": [], "bt": "0", "b": [], "c": [], "a": []});
}
