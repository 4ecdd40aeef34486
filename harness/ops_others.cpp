#include "ops.hpp"

void ops::table_others()
{
    deque_ops<int>("Deque<int>"), common_ops<Deque<int>>("Deque<int>"), order_ops<Deque<int>>("Deque<int>"), iter_ops<Deque<int>>("Deque<int>");
    deque_ops<Str>("Deque<Str>"), common_ops<Deque<Str>>("Deque<Str>"), iter_ops<Deque<Str>>("Deque<Str>");
    set_ops<int>("Set<int>"), common_ops<Set<int>>("Set<int>"), iter_ops<Set<int>>("Set<int>");
    set_ops<Str>("Set<Str>"), common_ops<Set<Str>>("Set<Str>"), iter_ops<Set<Str>>("Set<Str>");
    set_ops<List<int>>("Set<List<int>>"), common_ops<Set<List<int>>>("Set<List<int>>");
    dict_ops<int, Str>("Dict<int,Str>"), common_ops<Dict<int, Str>>("Dict<int,Str>"), iter_ops<Dict<int, Str>>("Dict<int,Str>");
    dict_ops<Str, Int>("Dict<Str,Int>"), common_ops<Dict<Str, Int>>("Dict<Str,Int>");
    tuple_ops();
    common_ops<Mixed>("Tuple<Int,Str,List<int>>"), common_ops<Pt>("Tuple<int,Fraction>");
}
