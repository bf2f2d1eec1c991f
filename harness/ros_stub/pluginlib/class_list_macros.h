#pragma once
#include <pluginlib/class_loader.h>
#define PLUGINLIB_STUB_CAT2(A, B) A##B
#define PLUGINLIB_STUB_CAT(A, B) PLUGINLIB_STUB_CAT2(A, B)
#define PLUGINLIB_EXPORT_CLASS(T, B) static const bool PLUGINLIB_STUB_CAT(pluginlib_stub_, __COUNTER__) = pluginlib::add<T, B>(#T);
