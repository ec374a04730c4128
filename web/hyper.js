"use strict";
/* react-hyperscript and @macrostrat/hyper: h("tag.class#id", props, children), h(Component, ...), h([children]) */
module.exports = function (React) {
  function h(type, props, children) {
    if (Array.isArray(type)) return React.createElement(React.Fragment, null, ...type);
    if (props != null && (typeof props !== "object" || Array.isArray(props) || React.isValidElement(props))) { children = props; props = null; }
    let p = props ? { ...props } : {};
    if (typeof type === "string") {
      const parts = type.split(/([.#])/);
      let tag = parts.shift() || "div";
      const cls = [];
      for (let i = 0; i < parts.length; i += 2) { if (parts[i] === ".") cls.push(parts[i + 1]); else p.id = parts[i + 1]; }
      if (p.className) cls.push(p.className);
      if (cls.length) p.className = cls.join(" ");
      type = tag;
    }
    if (children === undefined) return React.createElement(type, p);
    return Array.isArray(children) ? React.createElement(type, p, ...children) : React.createElement(type, p, children);
  }
  h.hyperStyled = h.styled = () => h;
  h.if = (c) => (c ? h : () => null);
  h.fragment = (c) => React.createElement(React.Fragment, null, c);
  h.default = h;
  return h;
};
