// Runs the scripts of the demo page with stand-ins for the browser and records every
// string that is handed to the page as markup. stdin: {scripts, sentence, mode, tokens};
// stdout: {sinks: [...], posts: n, unknown: [...]}.
'use strict';
const vm = require('vm');
let text = '';
process.stdin.on('data', d => text += d);
process.stdin.on('end', () => {
  const q = JSON.parse(text);
  const sinks = [], unknown = [], texts = [];
  let posts = 0;
  const isHTML = s => typeof s === 'string';
  const reply = () => JSON.parse(q.reply);
  const htmlMethods = new Set(['append', 'prepend', 'html', 'after', 'before', 'replaceWith', 'wrap', 'wrapAll', 'wrapInner']);
  const timers = [];
  function sink(s) { if (isHTML(s)) sinks.push(s); }
  function jq(sel) {
    const box = { list: [], sel: typeof sel === 'string' ? sel : '' };
    if (typeof sel === 'string' && sel.trim().startsWith('<')) sink(sel);
    const p = new Proxy(function () {}, {
      get(t, k) {
        if (k === 'length') return 1;
        if (k === 0 || k === '0') return elem(box.sel);
        if (k === Symbol.toPrimitive) return () => '[object]';
        if (k === Symbol.iterator || typeof k === 'symbol') return undefined;
        if (k === 'then') return undefined;
        return function (...a) {
          if (htmlMethods.has(k)) a.flat(3).forEach(x => { if (typeof x === 'function') x = x(0, ''); sink(x); });
          if (/(appendTo|prependTo|insertBefore|insertAfter)/.test(k)) return p;
          if (k === 'val' && a.length === 0) return /name=.?.?r\b/.test(box.sel) || /radio|checked/.test(box.sel) ? q.mode : q.sentence;
          if (k === 'text' && a.length) { texts.push(String(a[0])); return p; }
          if (k === 'attr' && a.length === 1) return q.mode;
          if (k === 'each') { a[0].call(elem(box.sel), 0, elem(box.sel)); return p; }
          if (k === 'filter' || k === 'find' || k === 'closest' || k === 'children') { const n = jq(box.sel + ' ' + (typeof a[0] === 'string' ? a[0] : '')); return n; }
          if (k === 'map') return p;
          if (/^(change|click|keyup|keydown|input|submit|ready|on|bind|live|delegate)$/.test(k)) {
            const f = a[a.length - 1];
            if (typeof f === 'function') timers.push(() => f.call(elem(box.sel), { preventDefault() {}, stopPropagation() {}, target: elem(box.sel) }));
            return p;
          }
          return p;
        };
      },
      apply() { return p; },
    });
    return p;
  }
  function elem(sel) {
    const store = {};
    const e = new Proxy(store, {
      get(t, k) {
        if (k in t) return t[k];
        if (k === 'value') return /name=.?.?r\b|radio|checked/.test(sel) ? q.mode : q.sentence;
        if (k === 'checked') return true;
        if (k === 'insertAdjacentHTML') return (w, s) => sink(s);
        if (k === 'innerHTML' || k === 'outerHTML') return '';
        if (k === 'textContent' || k === 'innerText' || k === 'nodeValue') return '';
        if (k === 'firstChild' || k === 'lastChild' || k === 'firstElementChild') return null;
        if (k === 'children' || k === 'childNodes') return [];
        if (typeof k === 'symbol') return undefined;
        if (k === 'then') return undefined;
        if (/^(querySelector|closest|insertRow|insertCell|cloneNode|appendChild|append|removeChild|replaceChildren|createTextNode|createElement)$/.test(k))
          return (...a) => (k === 'append' || k === 'replaceChildren' || k === 'appendChild') ? (a[0] && typeof a[0] === 'object' ? a[0] : e) : elem(String(a[0]));
        if (k === 'querySelectorAll') return () => [elem(sel)];
        if (k === 'addEventListener') return (n, f) => timers.push(() => f.call(e, { target: e, preventDefault() {} }));
        if (k === 'style' || k === 'classList' || k === 'dataset') return elem(sel);
        return (...a) => elem(sel);
      },
      set(t, k, v) {
        if (k === 'innerHTML' || k === 'outerHTML' || k === 'srcdoc') sink(String(v));
        else if (k === 'textContent' || k === 'innerText') texts.push(String(v));
        else t[k] = v;
        return true;
      },
    });
    return e;
  }
  const each = (o, f) => { if (Array.isArray(o)) o.forEach((v, i) => f.call(v, i, v)); else for (const k in o) f.call(o[k], k, o[k]); };
  const isData = v => v && typeof v === 'object';
  const dollar = function (sel) {
    if (typeof sel === 'function') { timers.push(sel); return jq(''); }
    return jq(sel);
  };
  const deferred = () => { const d = { done(f) { f(reply(), 'success', {}); return d; }, success(f) { return d.done(f); }, then(f) { return d.done(f); }, fail() { return d; }, always() { return d; }, error() { return d; } }; return d; };
  Object.assign(dollar, {
    each, isArray: Array.isArray, map: (a, f) => a.map((v, i) => f(v, i)), trim: s => String(s).trim(), extend: Object.assign,
    post(url, ...a) { posts++; for (const f of a) if (typeof f === 'function') f(reply(), 'success', {}); return deferred(); },
    getJSON(url, ...a) { return dollar.post(url, ...a); },
    get(url, ...a) { return dollar.post(url, ...a); },
    ajax(o, p) { posts++; o = typeof o === 'string' ? p || {} : o; if (o.success) o.success(reply(), 'success', {}); if (o.complete) o.complete({}, 'success'); return deferred(); },
    fn: {},
  });
  const doc = elem('document');
  const document = new Proxy({}, {
    get(t, k) {
      if (k === 'write' || k === 'writeln') return s => sink(String(s));
      if (k === 'createTextNode') return s => { texts.push(String(s)); return elem('#text'); };
      if (k === 'getElementById' || k === 'querySelector' || k === 'createElement') return s => elem(String(s));
      if (k === 'getElementsByName') return s => [elem('[name="' + s + '"]')];
      if (k === 'querySelectorAll' || k === 'getElementsByTagName' || k === 'getElementsByClassName') return s => [elem(String(s))];
      return doc[k];
    },
    set() { return true; },
  });
  class XHR {
    open() {} setRequestHeader() {} abort() {}
    addEventListener(n, f) { this['on' + n] = f; }
    send() {
      posts++;
      Object.assign(this, { readyState: 4, status: 200, responseText: q.reply, response: reply() });
      if (this.onreadystatechange) this.onreadystatechange({});
      if (this.onload) this.onload({});
    }
  }
  const ctx = {
    $: dollar, jQuery: dollar, document, JSON, Array, Object, String, Number, Math, console: { log() {}, error() {}, warn() {} },
    XMLHttpRequest: XHR, Promise, setTimeout: f => { timers.push(f); return 1; }, clearTimeout() {}, setInterval: () => 1, clearInterval() {},
    fetch: () => { posts++; return Promise.resolve({ ok: true, status: 200, json: () => Promise.resolve(reply()), text: () => Promise.resolve(q.reply) }); },
    encodeURIComponent, decodeURIComponent, location: { href: '', pathname: '/' }, navigator: {}, FormData: class {}, URLSearchParams, parseInt, isNaN, RegExp, Date,
  };
  if (q.tokens) { // the page of the WebAssembly example
    ctx.kagome_tokenize = () => { posts++; return JSON.parse(JSON.stringify(q.tokens)); };
    ctx.Go = class { constructor() { this.importObject = {}; } run() { return Promise.resolve(); } };
    ctx.WebAssembly = { instantiateStreaming: () => Promise.resolve({ instance: {} }), instantiate: () => Promise.resolve({ instance: {} }) };
  }
  ctx.window = ctx; ctx.self = ctx; ctx.globalThis = ctx;
  vm.createContext(ctx);
  const attempt = f => { try { f(); } catch (e) { unknown.push(String(e && e.stack || e).slice(0, 400)); } };
  for (const s of q.scripts) attempt(() => vm.runInContext(s, ctx, { timeout: 10000 }));
  for (const s of q.handlers) attempt(() => vm.runInContext('(function(event){' + s + '\n}).call({}, {preventDefault(){}, target: {}})', ctx, { timeout: 10000 }));
  for (let n = 0; n < 50 && timers.length; n++) attempt(timers.shift());
  setTimeout(() => process.stdout.write(JSON.stringify({ sinks, texts, posts, unknown })), 30);
});
