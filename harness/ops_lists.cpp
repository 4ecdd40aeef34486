#include "ops.hpp"

void ops::table_lists()
{
    list_ops<int>("List<int>"), common_ops<List<int>>("List<int>"), order_ops<List<int>>("List<int>"), iter_ops<List<int>>("List<int>");
    list_ops<Str>("List<Str>"), common_ops<List<Str>>("List<Str>"), order_ops<List<Str>>("List<Str>"), iter_ops<List<Str>>("List<Str>");
    list_ops<Int>("List<Int>"), common_ops<List<Int>>("List<Int>");
    list_ops<List<int>>("List<List<int>>"), common_ops<List<List<int>>>("List<List<int>>");
}
