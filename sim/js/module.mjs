// The Emscripten module as the JavaScript bindings see it, over a WebAssembly instance in a simulated heap.
import { current } from './world.mjs'
export default async function initModule() { return current().Module; }
