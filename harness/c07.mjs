// Update options -> lanes.  Options are symbolic: presence of each, booleans, transition numbers, delays.
import * as L from '@src/lane.js';
const PRIOS = ['user-blocking', 'user-visible', 'background'];
const PLANES = [L.UserBlockingLane, L.UserVisibleLane, L.BackgroundLane];

export default function main(ctx, c) {
  const opt = {};
  const groups = [L.SyncLane, L.UserHandlerLane, L.UserBlockingLane | L.UserVisibleLane | L.BackgroundLane, L.TransitionLanes, L.DelayLanes];
  const want = [false, false, false, false, false];
  if (c.sync) { opt.flushSync = ctx.bool('sync'); want[0] = opt.flushSync; }
  if (c.handler) { opt.handler = () => {}; want[1] = true; }
  let p = -1;
  if (c.priority) { p = ctx.choose('prio', 3); opt.priority = PRIOS[p]; want[2] = true; }
  if (c.transition) { opt.transition = ctx.int('transition', 0, 0x7fffffff); want[3] = true; }
  if (c.delay) { opt.delay = ctx.num('delay'); ctx.assume(opt.delay >= 0); want[4] = true; }
  const lanes = L.getRenderLanes(opt);
  ctx.obs('lanes', lanes);
  ctx.reach('lanes computed');
  for (let i = 0; i < 5; i++) {
    const part = lanes & groups[i];
    const single = ctx.and(part !== 0, (part & (part - 1)) === 0);
    ctx.check(ctx.ite(want[i], true, false) ? single : part === 0, 'exactly one lane per option present, none for an absent one', { group: i, lanes });
    for (let j = i + 1; j < 5; j++) ctx.check((groups[i] & groups[j]) === 0, 'lanes of different kinds of option are disjoint');
  }
  ctx.check((lanes & ~(groups[0] | groups[1] | groups[2] | groups[3] | groups[4])) === 0, 'no lane outside the groups');
  if (c.priority) {
    ctx.check((lanes & groups[2]) === PLANES[p], 'the lane of the priority');
    ctx.check(L.getLaneFromPriority(PRIOS[p]) === PLANES[p], 'lane from priority');
    ctx.check(L.getPriorityFromLanes(L.getLaneFromPriority(PRIOS[p])) === PRIOS[p], 'priority round trip');
    if (!opt.flushSync && !c.handler) ctx.check(L.getPriorityFromLanes(lanes) === PRIOS[p], 'priority survives next to transition and delay');
  }
  if (c.transition) {
    ctx.check(L.getTransitionIndex(lanes) === opt.transition % L.TransitionLaneLength, 'transition round trip', { lanes, t: opt.transition });
    ctx.reach('transition');
  } else ctx.check(L.getTransitionIndex(lanes) === -1, 'no transition index without a transition');
  if (c.delay) ctx.check((lanes & L.DelayLanes) === (opt.delay <= 100 ? L.ShortDelayLane : L.LongDelayLane), 'delays up to 100 ms are short');
  // the most urgent lane is the lowest one present
  const hi = L.getHighestPriorityLane(lanes);
  ctx.check((hi & lanes) === hi, 'the highest lane is one of the lanes');
  ctx.check(hi === 0 ? lanes === 0 : ctx.and((hi & (hi - 1)) === 0, (lanes & (hi - 1)) === 0), 'the highest lane is the most urgent one', { lanes, hi });
  if (opt.flushSync || c.handler) ctx.check(L.getPriorityFromLanes(lanes) === 'user-blocking', 'synchronous and handled updates are user-blocking');
}
