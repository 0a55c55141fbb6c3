#pragma once
#include <pluginlib/class_loader.hpp>
#ifdef STUB_ROS_IMPL
#define STUB_PL_CAT2(a, b) a##b
#define STUB_PL_CAT(a, b) STUB_PL_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) namespace { struct STUB_PL_CAT(StubReg, __LINE__) { STUB_PL_CAT(StubReg, __LINE__)() { pluginlib::stub_factories<B>()[#D] = [] { return static_cast<B*>(new D); }; } } STUB_PL_CAT(stub_reg_, __LINE__); }
#else
#define PLUGINLIB_EXPORT_CLASS(D, B) static_assert(std::is_base_of<B, D>::value, "plugin base");
#include <type_traits>
#endif
