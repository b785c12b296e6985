#pragma once
// proto type, single C++ type, element C++ type
#define ALL_TYPES(X) \
    X(double, PG::field<double>, double) \
    X(float, PG::field<float>, float) \
    X(int32, PG::field<int32_t>, int32_t) \
    X(int64, PG::field<int64_t>, int64_t) \
    X(uint32, PG::field<uint32_t>, uint32_t) \
    X(uint64, PG::field<uint64_t>, uint64_t) \
    X(sint32, PG::field<int32_t>, int32_t) \
    X(sint64, PG::field<int64_t>, int64_t) \
    X(fixed32, PG::field<uint32_t>, uint32_t) \
    X(fixed64, PG::field<uint64_t>, uint64_t) \
    X(sfixed32, PG::field<int32_t>, int32_t) \
    X(sfixed64, PG::field<int64_t>, int64_t) \
    X(bool, PG::field<bool>, bool) \
    X(string, PG::string_field, PG::string_field) \
    X(bytes, std::vector<uint8_t>, std::vector<uint8_t>) \
    X(In, NS::In, NS::In)
