// Tree descriptions, the elements they stand for, and the document content they mean.
import { createComponent, createFragment, html, text } from '@src/index.js';

const Box = createComponent(function Box(props) { return el(props.d); }, { arePropsEqual: () => false });
const Box2 = createComponent(function Box2(props) { return el(props.d); }, { arePropsEqual: () => false });
/** k: P <p>v</p>, S <b>v</b>, T text v, W two nodes <i>v</i> and text, N nothing, F fragment of c,
 *  C/D component showing c[0], L component returning the list c, E element around hole c[0], H holes c[0] and c[1] around <hr> */
export function el(d) {
  const e = bare(d);
  return d.key === undefined ? e : e.withKey(d.key);
}
const List = createComponent(function List(props) { return props.c.map(el); }, { arePropsEqual: () => false });
function bare(d) {
  switch (d.k) {
    case 'P': return html`<p>${d.v}</p>`;
    case 'S': return html`<b>${d.v}</b>`;
    case 'T': return text`${d.v}`;
    case 'W': return html`<i>${d.v}</i>x`;
    case 'N': return createFragment([]);
    case 'F': return createFragment(d.c.map(el));
    case 'C': return Box({ d: d.c[0] });
    case 'D': return Box2({ d: d.c[0] });
    case 'L': return List({ c: d.c });
    case 'E': return html`<div><${el(d.c[0])}></div>`;
    case 'H': return html`<${el(d.c[0])}><hr><${el(d.c[1])}>`;
  }
  throw new Error('bad description ' + d.k);
}
export function means(d) {
  switch (d.k) {
    case 'P': return [{ tag: 'p', c: [d.v] }];
    case 'S': return [{ tag: 'b', c: [d.v] }];
    case 'T': return [d.v];
    case 'W': return [{ tag: 'i', c: [d.v] }, 'x'];
    case 'N': return [];
    case 'F': case 'L': return d.c.flatMap(means);
    case 'C': case 'D': return means(d.c[0]);
    case 'E': return [{ tag: 'div', c: means(d.c[0]) }];
    case 'H': return [...means(d.c[0]), { tag: 'hr', c: [] }, ...means(d.c[1])];
  }
}
