namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
class StatusOr<T&> {
 public:
  using value_type = T&;
  StatusOr(T& t) : p_(&t) {}
  StatusOr(const Status& s) : s_(s) {}
  StatusOr(Status&& s) : s_(std::move(s)) {}
  template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  StatusOr(const StatusOr<U&>& o) : p_(o.ok() ? &*o : nullptr), s_(o.status()) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return std::move(s_); }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  T& value() const { return *p_; }
 private:
  T* p_ = nullptr;
  Status s_;
};
ABSL_NAMESPACE_END
}  // namespace absl
