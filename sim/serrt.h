#pragma once
namespace simalloc { extern long live; }
