G=['ink/geometry/vec.cc','ink/geometry/angle.cc']
B=[
dict(id='duration-ratio-both-infinite',prop='T01',edits=[('ink/types/duration.cc','''  if (!a.IsFinite()) {
    return (a''','''  if (!a.IsFinite() && b.IsFinite()) {
    return (a''')],srcs=['ink/types/duration.cc'],
 demo='''#include "ink/types/duration.h"
int main() { using ink::Duration32; float q = -Duration32::Infinite() / Duration32::Infinite(); REQ(!std::isnan(q)); REQ(q < 0 && std::isinf(q)); return 0; }
''',needs='dividing two infinite durations',breaks='the ratio of two infinite durations is NaN instead of a signed infinity'),
dict(id='duration-sub-mixed-inf',prop='T01',edits=[('ink/types/duration.h','''  if (!a.IsFinite()) return a;
  return Duration32(a.value_seconds_ - b''','''  if (!a.IsFinite() && b.IsFinite()) return a;
  if (a == b) return Duration32();
  return Duration32(a.value_seconds_ - b''')],srcs=['ink/types/duration.cc'],
 demo='''#include "ink/types/duration.h"
int main() { using ink::Duration32; Duration32 i = Duration32::Infinite(); REQ(i - i == i); REQ((-i) - (-i) == -i); return 0; }
''',needs='subtracting an infinite duration from itself',breaks='inf - inf becomes zero rather than staying infinite'),
dict(id='uri-revision-ten-digits',prop='T03',edits=[('ink/types/uri.cc','''  if (revision.size() > 9) {''','''  if (revision.size() > 10) {''')],srcs=['ink/types/uri.cc'],flags='-DVP_STRCAT',
 demo='''#include "ink/types/uri.h"
int main() { REQ(ink::Uri::Parse("ink:/texture:a:123456789").ok()); REQ(!ink::Uri::Parse("ink:/texture:a:9999999999").ok()); REQ(!ink::Uri::Parse("ink:/texture:a:1000000000").ok()); return 0; }
''',needs='a revision of exactly ten digits',breaks='ten-digit revisions are accepted (and silently become the default when they overflow)'),
dict(id='uri-trailing-colon-delimiter',prop='T03',edits=[('ink/types/uri.cc','''  constexpr absl::string_view kRevisionPossibleTrailingDelimeter = "/:?#";''','''  constexpr absl::string_view kRevisionPossibleTrailingDelimeter = "/:?#";
  if (complete_uri.substr(position) == kRevisionLeadingDelimeter) {
    ++position;
    return PartRange{};
  }''')],srcs=['ink/types/uri.cc'],flags='-DVP_STRCAT',
 demo='''#include "ink/types/uri.h"
int main() { REQ(ink::Uri::Parse("ink:/texture:a").ok()); REQ(!ink::Uri::Parse("ink:/texture:a:").ok()); return 0; }
''',needs='an otherwise valid URI that ends in a bare revision delimiter',breaks='an empty revision after the delimiter is accepted'),
dict(id='vec-unit-threshold',prop='G02',edits=[('ink/geometry/vec.cc','''  if (std::isinf(x)) {
    if (std::isinf(y)) {''','''  if (std::isinf(x)) {
    if (y > std::numeric_limits<float>::max()) {''')],srcs=G,
 demo='''#include "ink/geometry/vec.h"
int main() { float i = std::numeric_limits<float>::infinity(); ink::Vec u = ink::Vec{i, -i}.AsUnitVec(); REQ(std::abs(u.Magnitude() - 1) < 1e-3f); REQ(u.y < 0 && std::abs(u.y + u.x) < 1e-6f); return 0; }
''',needs='both components infinite and the second negative',breaks='the unit vector of <inf, -inf> points along the x axis'),
dict(id='angle-normalized-tiny-negative',prop='G01',edits=[('ink/geometry/angle.cc','''    if (radians == static_cast<float>(2.0 * numbers::kPi)) {
      radians = 0.f;''','''    if (radians > static_cast<float>(2.0 * numbers::kPi)) {
      radians = 0.f;''')],srcs=['ink/geometry/angle.cc'],
 demo='''#include "ink/geometry/angle.h"
int main() { ink::Angle a = ink::Angle::Radians(-1e-12f).Normalized(); REQ(a >= ink::Angle() && a < ink::kFullTurn); return 0; }
''',needs='normalizing a negative angle of tiny magnitude',breaks='Normalized() returns exactly a full turn'),
dict(id='envelope-empty-envelope',prop='G04',edits=[('ink/geometry/envelope.h','''    rect_ = Rect::FromTwoPoints(corners[0], corners[1]);
    rect_->Join(corners[2]);
    rect_->Join(corners[3]);''','''    rect_ = Rect::FromTwoPoints(corners[0], corners[2]);''')],srcs=['ink/geometry/quad.cc','ink/geometry/rect.cc','ink/geometry/segment.cc','ink/geometry/angle.cc','ink/geometry/vec.cc','ink/geometry/envelope.cc'],
 demo='''#include "ink/geometry/envelope.h"
int main() { ink::Envelope e; ink::Quad q = ink::Quad::FromCenterDimensionsAndRotation({0, 0}, 4, 2, ink::Angle::Radians(0.5f)); e.Add(q);
 for (ink::Point p : q.Corners()) REQ(e.AsRect()->Contains(p)); return 0; }
''',needs='a rotated or skewed quad added to an empty envelope',breaks='the envelope only bounds one diagonal of the quad'),
]
