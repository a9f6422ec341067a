CO = 'concurrent'
unit(CO, LIB, exclude=['lib/src/random.cpp'], fallback='VH_PLAIN_MAP')
P('C43', 'Initial poses and scans handled at the same time act one after the other',
  'StampSortedObjects operations (Insert, GetClosest, Size, RemoveOlderThan) called by several threads return results, and leave content, that some one-after-another order of them explains; none touches the map or an object while another changes it, and the mutex is free once each returns. '
  'A localization scan handled while initial poses arrive on either topic, at any moment, publishes exactly one pose and transform, its own result, optimised from the prior closest in time among those received before some moment of its handling (or nothing when none had come); no prior up to one second after the scan is lost to later scans.',
  ['schedules'], 'two operations (thorough: three), or one scan and one (thorough: two) initial poses, every preemption at a lock, unlock, map operation or copy of an object',
  'Tests run one operation at a time; nothing exercises the mutex.',
  [LH + 'stamp_sorted_objects.hpp', LH + 'subscriber.hpp'], [('StampSortedObjects', LH + 'stamp_sorted_objects.hpp'), ('LocalizationSubscriber::PoseUpdateCallback', LH + 'subscriber.hpp')],
  [E(CO, 'h_two_operations', 'real', ['alone', 'preempted', 'end'], 'two operations of any kind on two objects, one preemption at any yield point'),
   E(CO, 'h_three_operations', 'real', ['alone', 'preempted', 'end'], 'three operations, two preemptions', thorough_only=True),
   E(CO, 'h_scan_and_priors', 'real', ['no-prior', 'during', 'next', 'end'], 'no or one prior before, one (thorough: two) during')],
  ['std::mutex and std::map are stand-ins: a mutex records who holds it, a map is the real std::map whose operations can be preempted before they take effect; threads interleave at these points and at copies of an object, the preempting operation runs until it ends (nested preemption in the thorough tier)',
   'memory is sequentially consistent; accesses to the map or an object that overlap with a change are reported as a race'])
