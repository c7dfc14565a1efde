// Arbitrary lane sets (any 31-bit mask).
import * as L from '@src/lane.js';
export default function main(ctx) {
  const lanes = ctx.int('lanes', 0, 0x7fffffff);
  const hi = L.getHighestPriorityLane(lanes);
  ctx.obs('hi', hi);
  ctx.reach('any lanes');
  ctx.check(ctx.or(lanes === 0, ctx.and(hi !== 0, (hi & (hi - 1)) === 0, (hi & lanes) === hi, (lanes & (hi - 1)) === 0)), 'the highest lane is the most urgent one', { lanes, hi });
  ctx.check(ctx.or(lanes !== 0, hi === 0), 'no lane of no lanes');
  const p = L.getPriorityFromLanes(lanes);
  const blocking = (lanes & (L.SyncLane | L.UserHandlerLane | L.UserBlockingLane)) !== 0;
  const visible = (lanes & L.UserVisibleLane) !== 0;
  const rest = (lanes & (L.BackgroundLane | L.TransitionLanes | L.DelayLanes)) !== 0;
  if (blocking) ctx.check(p === 'user-blocking', 'priority of a lane set');
  else if (visible) ctx.check(p === 'user-visible', 'priority of a lane set');
  else if (rest) ctx.check(p === 'background', 'priority of a lane set');
  const t = L.getTransitionIndex(lanes);
  if ((lanes & L.TransitionLanes) === 0) ctx.check(t === -1, 'no transition index without a transition lane', { lanes, t });
  else {
    ctx.check(ctx.and(t >= 0, t < L.TransitionLaneLength), 'transition index in range', { lanes, t });
    ctx.check((lanes & (L.TransitionLane1 << t)) !== 0, 'transition index names a lane that is present', { lanes, t });
  }
  const names = L.inspectLanes(lanes);
  const flag = (m, n) => ctx.check(((lanes & m) !== 0) === (names.filter((x) => x === n).length === 1), 'inspected names are exactly the lanes present', { lanes, n, names });
  flag(L.SyncLane, 'SyncLane'); flag(L.UserHandlerLane, 'UserHandlerLane'); flag(L.UserBlockingLane, 'UserBlockingLane'); flag(L.UserVisibleLane, 'UserVisibleLane');
  flag(L.BackgroundLane, 'BackgroundLane'); flag(L.TransitionLanes, 'TransitionLane'); flag(L.ShortDelayLane, 'ShortDelayLane'); flag(L.LongDelayLane, 'LongDelayLane');
}
