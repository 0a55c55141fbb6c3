#pragma once
#include <sstream>
#include <string>
#include <cstdio>
namespace ros { namespace stublog {
template <class... A> inline void log(const char*, A&&...) {}
template <class... A> inline void log_named(const char*, const char*, A&&...) {}
inline void stream(const std::string&) {}
}}
#define STUB_ROS_STREAM(args) do { std::stringstream stub_ss__; stub_ss__ << args; ::ros::stublog::stream(stub_ss__.str()); } while (0)
#define ROS_DEBUG(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_INFO(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_WARN(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_ERROR(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_FATAL(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_DEBUG_NAMED(name, ...) ::ros::stublog::log_named(name, __VA_ARGS__)
#define ROS_INFO_NAMED(name, ...) ::ros::stublog::log_named(name, __VA_ARGS__)
#define ROS_WARN_NAMED(name, ...) ::ros::stublog::log_named(name, __VA_ARGS__)
#define ROS_ERROR_NAMED(name, ...) ::ros::stublog::log_named(name, __VA_ARGS__)
#define ROS_FATAL_NAMED(name, ...) ::ros::stublog::log_named(name, __VA_ARGS__)
#define ROS_DEBUG_STREAM(args) STUB_ROS_STREAM(args)
#define ROS_INFO_STREAM(args) STUB_ROS_STREAM(args)
#define ROS_WARN_STREAM(args) STUB_ROS_STREAM(args)
#define ROS_ERROR_STREAM(args) STUB_ROS_STREAM(args)
#define ROS_FATAL_STREAM(args) STUB_ROS_STREAM(args)
#define ROS_DEBUG_STREAM_NAMED(name, args) STUB_ROS_STREAM(args)
#define ROS_INFO_STREAM_NAMED(name, args) STUB_ROS_STREAM(args)
#define ROS_WARN_STREAM_NAMED(name, args) STUB_ROS_STREAM(args)
#define ROS_ERROR_STREAM_NAMED(name, args) STUB_ROS_STREAM(args)
#define ROS_FATAL_STREAM_NAMED(name, args) STUB_ROS_STREAM(args)
#define ROS_DEBUG_ONCE(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_INFO_ONCE(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_WARN_STREAM_ONCE(args) STUB_ROS_STREAM(args)
#define ROS_DEBUG_THROTTLE(r, ...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) ::ros::stublog::log(__VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) ::ros::stublog::log(__VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) ::ros::stublog::log(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) ::ros::stublog::log(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) ::ros::stublog::log(__VA_ARGS__); } while (0)
