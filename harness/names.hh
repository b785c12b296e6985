#pragma once
// member, JSON name, number
#define NAMES(X) \
    X(color, "color", 1) \
    X(aN, "aN", 10) \
    X(a9b9, "a9b9", 1000) \
    X(order, "order", 99) \
    X(x, "x", 53687091) \
    X(f6_abc, "f6_abc", 536870911) \
    X(seven_7, "seven_7", 12345) \
    X(eight__8, "eight__8", 2) \
    X(nine_nine, "nine_nine", 3) \
    X(rrrrr, "rrrrr", 18999) \
    X(NN, "NN", 20000) \
    X(u, "some name", 77) \
    X(v, "é", 100000) \
    X(w, "N9r\?", 9999) \
    X(y, "日本-語", 5) \
    X(z, "a$1$b%s", 49) \
    X(big_number_field_name_with_many_letters, "big_number_field_name_with_many_letters", 94) \
    X(k, "\?\?x", 111111) \
    X(tr9N, "{}[],:", 22) \
    X(slash, "a/b", 4)
